// IIR design.
#include "ops_types.hpp"

#include <dspbb/Filtering/IIR.hpp>

#ifndef PART
#define PART 0
#endif

using namespace ops;

namespace {

using F = float;
using D = double;

template <class T, class Desc> void design(Ex& ex, size_t order, const Desc& d) {
	const auto r = ex.lib([&] { return DesignFilter<T>(order, d); });
	ex.put(r);
}

// Elliptic designs of high order run out of precision in float (an assertion of the library says so).
template <class T> size_t limit(int kind, size_t order) {
	return kind == 3 && std::is_same_v<T, float> && order > 8 ? 1 + order % 8 : order;
}

template <class T> Exec iir(Mk& mk) {
	static const size_t cap[] = { 4, 8, 12, 16 };
	const size_t drawn = 1 + mk.below(cap[mk.scale()]);
	const int band = int(mk.below(4)), kind = int(mk.below(4));
	const size_t order = limit<T>(kind, drawn);
	const T lo = T(mk.real(0.05, 0.45)), hi = T(mk.real(0.55, 0.95)), rp = T(mk.real(0.01, 0.3)), rs = T(mk.real(0.01, 0.3));
	const bool defaults = mk.chance(1, 5);
	return [=](Ex& ex) {
		const size_t even = (order + 1) / 2 * 2;
		const auto split = [&](const auto& d) {
			switch (kind) {
				case 0: design<T>(ex, order, d.Butterworth.Cutoff(lo)); break;
				case 1: defaults ? design<T>(ex, order, d.Chebyshev1.Cutoff(lo)) : design<T>(ex, order, d.Chebyshev1.Cutoff(lo).PassbandRipple(rp)); break;
				case 2: defaults ? design<T>(ex, order, d.Chebyshev2.StopbandRipple(rs)) : design<T>(ex, order, d.Chebyshev2.Cutoff(lo).StopbandRipple(rs)); break;
				default: design<T>(ex, order, d.Elliptic.Cutoff(lo).PassbandRipple(rp).StopbandRipple(rs)); break;
			}
		};
		const auto bands = [&](const auto& d) {
			switch (kind) {
				case 0: design<T>(ex, even, d.Butterworth.Band(lo, hi)); break;
				case 1: defaults ? design<T>(ex, even, d.Chebyshev1.Band(lo, hi)) : design<T>(ex, even, d.Chebyshev1.Band(lo, hi).PassbandRipple(rp)); break;
				case 2: defaults ? design<T>(ex, even, d.Chebyshev2.StopbandRipple(rs)) : design<T>(ex, even, d.Chebyshev2.Band(lo, hi).StopbandRipple(rs)); break;
				default: design<T>(ex, even, d.Elliptic.Band(lo, hi).PassbandRipple(rp).StopbandRipple(rs)); break;
			}
		};
		switch (band) {
			case 0: split(Iir.Lowpass); break;
			case 1: split(Iir.Highpass); break;
			case 2: bands(Iir.Bandpass); break;
			default: bands(Iir.Bandstop); break;
		}
	};
}

template <class T> Exec prototypes(Mk& mk) {
	const size_t drawn = 1 + mk.below(mk.scale() ? 16 : 5);
	const int kind = int(mk.below(4));
	const size_t order = limit<T>(kind, drawn);
	const T rp = T(mk.real(0.01, 0.3)), rs = T(mk.real(0.01, 0.3)), rate = T(mk.real(0.3, 3));
	return [=](Ex& ex) {
		const auto p = ex.lib([&] {
			switch (kind) {
				case 0: return Butterworth<T>(order);
				case 1: return Chebyshev1<T>(order, rp);
				case 2: return Chebyshev2<T>(order, rs);
				default: return Elliptic<T>(order, rp, rs);
			}
		});
		ex.put(p);
		ex.call([&] { return BilinearTransform(p, rate); });
		ex.call([&] { return BilinearTransform(p, rate, std::optional<T>(T(1))); });
	};
}

template <class T> Exec bandMaps(Mk& mk) {
	const size_t n = mk.below(mk.scale() ? 10 : 4) + 1;
	const size_t nz = mk.below(n + 1);
	Rng r(mk.next());
	const auto z = mk.put(genRoots<T>(r, nz, 1.0)), p = mk.put(genRoots<T>(r, n, 0.9));
	const auto* sys = mk.obj([&] { return DiscreteZeroPoleGain<T>{ T(0.7), FactoredPolynomial<T>(z.begin(), z.end()), FactoredPolynomial<T>(p.begin(), p.end()) }; });
	const T lo = T(mk.real(0.05, 0.45)), hi = T(mk.real(0.55, 0.95));
	const int kind = int(mk.below(4));
	return [=](Ex& ex) {
		const auto o = ex.lib([&] {
			switch (kind) {
				case 0: return Halfband2Lowpass(*sys, lo);
				case 1: return Halfband2Highpass(*sys, lo);
				case 2: return Halfband2Bandpass(*sys, lo, hi);
				default: return Halfband2Bandstop(*sys, lo, hi);
			}
		});
		ex.put(o);
		ex.call([&] { return CascadedBiquad<T>(o); });
		ex.call([&] { return DiscreteTransferFunction<T>(o); });
	};
}

template <class T> Exec rejected(Mk& mk) {
	const T bad = mk.chance(1, 2) ? T(mk.real(1.01, 5)) : T(-mk.real(0.01, 5));
	const int kind = int(mk.below(5));
	return [=](Ex& ex) {
		ex.lib([&] {
			switch (kind) {
				case 0: (void)Iir.Lowpass.Butterworth.Cutoff(bad); break;
				case 1: (void)Iir.Highpass.Chebyshev1.Cutoff(bad); break;
				case 2: (void)Iir.Bandpass.Chebyshev2.Band(T(0.7), T(0.2)); break;
				case 3: (void)Iir.Bandstop.Elliptic.Band(T(0.1), bad); break;
				default: (void)Iir.Bandpass.Butterworth.Band(bad, T(0.4)); break;
			}
		});
		ex.put(kind);
	};
}

#if PART == 0
Reg i1("IIR design, float", [](Mk& mk) { return iir<F>(mk); }, 4);
Reg i2("IIR band transforms, float", [](Mk& mk) { return bandMaps<F>(mk); }, 2);
Reg i3("IIR prototypes, float", [](Mk& mk) { return prototypes<F>(mk); }, 2);
Reg i4("IIR design, rejected parameters", [](Mk& mk) { return rejected<F>(mk); }, 1);
#else
Reg i5("IIR design, double", [](Mk& mk) { return iir<D>(mk); }, 4);
Reg i6("IIR band transforms, double", [](Mk& mk) { return bandMaps<D>(mk); }, 2);
Reg i7("IIR prototypes, double", [](Mk& mk) { return prototypes<D>(mk); }, 2);
#endif

} // namespace
