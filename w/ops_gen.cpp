// Spaces, waveforms, windows.
#include "ops.hpp"

#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>

using namespace ops;

namespace {

using F = float;
using D = double;
using CF = std::complex<float>;
using CD = std::complex<double>;
constexpr auto TIME = eSignalDomain::TIME;
constexpr auto FREQ = eSignalDomain::FREQUENCY;

template <class T> Exec spaces(Mk& mk) {
	using R = RealT<T>;
	const size_t n = mk.len(0);
	const R a = R(mk.real(-3, 3)), b = R(mk.real(-3, 3));
	const R base = R(mk.real(1.5, 12));
	const bool incl = mk.chance(1, 2);
	const int form = int(mk.below(5));
	return [=](Ex& ex) {
		switch (form) {
			case 0: ex.put(ex.lib([&] { return LinSpace<T, FREQ>(a, b, n, incl); })); break;
			case 1: ex.put(ex.lib([&] { return LogSpace<T, TIME>(a, b, n, base, incl); })); break;
			case 2: {
				auto o = ex.out<T>(n);
				ex.lib([&] { LinSpace(o.view(), a, b, incl); });
				ex.put(o);
				break;
			}
			case 3: {
				auto o = ex.out<T>(n);
				ex.lib([&] { LogSpace(o.view(), a, b, base, incl); });
				ex.put(o);
				break;
			}
			default: {
				ex.put(ex.lib([&] { return LinSpace<T, TIME>(a, b, n); }));
				ex.put(ex.lib([&] { return LogSpace<T, TIME>(a, b, n); }));
			}
		}
	};
}

template <class T> Exec waves(Mk& mk) {
	const size_t n = mk.len(0);
	const uint64_t rate = uint64_t(mk.range(8, 48000));
	const double f = mk.real(0.1, double(rate) / 2), g = mk.real(0.1, double(rate) / 2);
	const double phase = mk.chance(1, 3) ? 0.0 : mk.real(0, 6);
	const double shape = mk.real(0, 1);
	const int form = int(mk.below(8));
	const bool ret = mk.chance(1, 2);
	return [=](Ex& ex) {
		if (ret) {
			switch (form) {
				case 0: ex.put(ex.lib([&] { return SineWave<T, TIME>(n, rate, f, phase); })); break;
				case 1: ex.put(ex.lib([&] { return SawtoothWave<T, TIME>(n, rate, f, phase, shape); })); break;
				case 2: ex.put(ex.lib([&] { return PwmWave<T, TIME>(n, rate, f, phase, shape); })); break;
				case 3: ex.put(ex.lib([&] { return SquareWave<T, TIME>(n, rate, f, phase); })); break;
				case 4: ex.put(ex.lib([&] { return SineChirp<T, TIME>(n, rate, f, g, phase); })); break;
				case 5: ex.put(ex.lib([&] { return SawtoothChirp<T, TIME>(n, rate, f, g, phase, shape); })); break;
				case 6: ex.put(ex.lib([&] { return PwmChirp<T, TIME>(n, rate, f, g, phase, shape); })); break;
				default: ex.put(ex.lib([&] { return SquareChirp<T, TIME>(n, rate, f, g, phase); })); break;
			}
			return;
		}
		auto o = ex.out<T>(n);
		ex.lib([&] {
			switch (form) {
				case 0: SineWave(o.view(), rate, f, phase); break;
				case 1: SawtoothWave(o.view(), rate, f, phase, shape); break;
				case 2: PwmWave(o.view(), rate, f, phase, shape); break;
				case 3: SquareWave(o.view(), rate, f, phase); break;
				case 4: SineChirp(o.view(), rate, f, g, phase); break;
				case 5: SawtoothChirp(o.view(), rate, f, g, phase, shape); break;
				case 6: PwmChirp(o.view(), rate, f, g, phase, shape); break;
				default: SquareChirp(o.view(), rate, f, g, phase); break;
			}
		});
		ex.put(o);
	};
}

// kind 0-9; how: 0 returned, 1 into an output, 2 functor into output, 3 functor returning.
template <class T> Exec window(Mk& mk) {
	using R = RealT<T>;
	const size_t n = mk.len(2);
	const int kind = int(mk.below(10));
	const int how = int(mk.below(4));
	const R p = kind == 6 ? R(mk.real(0.2, 2)) : kind == 7 ? R(mk.real(0.1, 4)) : R(mk.real(0.001, 0.5));
	return [=](Ex& ex) {
		if (how == 0) {
			Signal<T> w = ex.lib([&]() -> Signal<T> {
				switch (kind) {
					case 0: return HammingWindow<T>(n);
					case 1: return FlatTopWindow<T>(n);
					case 2: return RectangularWindow<T>(n);
					case 3: return TriangularWindow<T>(n);
					case 4: return BlackmanWindow<T>(n);
					case 5: return BlackmanHarrisWindow<T>(n);
					case 6: if constexpr (!isComplex<T>) return GaussianWindow<T>(n, p); else return HammingWindow<T>(n);
					case 7: if constexpr (!isComplex<T>) return KaiserWindow<T>(n, p); else return HammingWindow<T>(n);
					case 8: return LanczosWindow<T>(n);
					default: if constexpr (!isComplex<T>) return DolphChebyshevWindow<T>(n, p); else return HammingWindow<T>(n);
				}
			});
			ex.put(w);
			ex.put(ex.lib([&] { return CoherentGain(w); }));
			ex.put(ex.lib([&] { return EnergyGain(w); }));
			return;
		}
		if (how == 3) {
			Signal<T> w = ex.lib([&]() -> Signal<T> {
				switch (kind) {
					case 0: return windows::hamming.template operator()<T>(n);
					case 1: return windows::flattop.template operator()<T>(n);
					case 2: return windows::rectangular.template operator()<T>(n);
					case 3: return windows::triangular.template operator()<T>(n);
					case 4: return windows::blackman.template operator()<T>(n);
					case 5: return windows::blackmanHarris.template operator()<T>(n);
					case 6: if constexpr (!isComplex<T>) return windows::gaussian.sigma(p).template operator()<T>(n); else return windows::hamming.template operator()<T>(n);
					case 7: if constexpr (!isComplex<T>) return windows::kaiser.alpha(p).template operator()<T>(n); else return windows::hamming.template operator()<T>(n);
					case 8: return windows::lanczos.template operator()<T>(n);
					default: if constexpr (!isComplex<T>) return windows::dolphChebyshev.attenuation(p).template operator()<T>(n); else return windows::hamming.template operator()<T>(n);
				}
			});
			ex.put(w);
			return;
		}
		auto out = ex.out<T>(n);
		auto v = out.view();
		ex.lib([&] {
			if (how == 1) {
				switch (kind) {
					case 0: HammingWindow(v); break;
					case 1: FlatTopWindow(v); break;
					case 2: RectangularWindow(v); break;
					case 3: TriangularWindow(v); break;
					case 4: BlackmanWindow(v); break;
					case 5: BlackmanHarrisWindow(v); break;
					case 6: GaussianWindow(v, p); break;
					case 7: KaiserWindow(v, p); break;
					case 8: LanczosWindow(v); break;
					default: if constexpr (!isComplex<T>) DolphChebyshevWindow(v, p); else HammingWindow(v);
				}
			}
			else {
				switch (kind) {
					case 0: windows::hamming(v); break;
					case 1: windows::flattop(v); break;
					case 2: windows::rectangular(v); break;
					case 3: windows::triangular(v); break;
					case 4: windows::blackman(v); break;
					case 5: windows::blackmanHarris(v); break;
					case 6: windows::gaussian.sigma(p)(v); break;
					case 7: windows::kaiser.alpha(p)(v); break;
					case 8: windows::lanczos(v); break;
					default: if constexpr (!isComplex<T>) windows::dolphChebyshev.attenuation(p)(v); else windows::hamming(v);
				}
			}
		});
		ex.put(out);
		ex.put(ex.lib([&] { return CoherentGain(SignalView<const T>(v)); }));
		ex.put(ex.lib([&] { return EnergyGain(SignalView<const T>(v)); }));
	};
}

#if PART == 0
Reg g1("LinSpace, LogSpace", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return spaces<typename decltype(t)::type>(mk); }); });
Reg g2("Waves and chirps", [](Mk& mk) { return mk.types<F, D, CF>([&](auto t) { return waves<typename decltype(t)::type>(mk); }); }, 3);
#else
Reg g3("Windows", [](Mk& mk) { return mk.types<F, D, CF>([&](auto t) { return window<typename decltype(t)::type>(mk); }); }, 5);
#endif

} // namespace
