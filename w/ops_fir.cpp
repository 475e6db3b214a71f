// FIR design and band transforms.
#include "ops_types.hpp"

#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>

#ifndef PART
#define PART 0
#endif

using namespace ops;

namespace {

using F = float;
using D = double;

template <class T, class Desc> void design(Ex& ex, size_t n, int how, const Desc& d) {
	if (how == 0) {
		const auto r = ex.lib([&] { return DesignFilter<T, TIME_DOMAIN>(n, d); });
		ex.put(r);
		return;
	}
	if (how == 1) {
		// A signal of the caller that has been used for something else.
		BasicSignal<T, TIME_DOMAIN> s = ex.lib([&] { return BasicSignal<T, TIME_DOMAIN>(n, T(7)); });
		ex.lib([&] { DesignFilter(s, d); });
		ex.put(s);
		return;
	}
	auto o = ex.out<T>(n);
	auto v = o.view();
	ex.lib([&] { DesignFilter(v, d); });
	ex.put(o);
}

template <class T, class Desc, class W> void designHilbert(Ex& ex, size_t n, int how, const Desc& d, const W&) {
	if (how == 0) {
		const auto r = ex.lib([&] { return DesignFilter<T, TIME_DOMAIN>(n, d); });
		ex.put(r);
		return;
	}
	BasicSignal<T, TIME_DOMAIN> s = ex.lib([&] { return BasicSignal<T, TIME_DOMAIN>(n, T(-3)); });
	ex.lib([&] { DesignFilter(s, d); });
	ex.put(s);
}

struct Response {
	double a, b;
	template <class X> auto operator()(X f) const { return X(a + b * std::cos(3 * double(f))); }
};

// Calls f with a window functor.
template <class T, class Fn> void withWindow(int kind, double p, Fn f) {
	switch (kind) {
		case 0: f(windows::hamming); break;
		case 1: f(windows::kaiser.alpha(T(0.2 + 3 * p))); break;
		case 2: f(windows::blackman); break;
		case 3: f(windows::gaussian.sigma(T(0.2 + p))); break;
		default: f(windows::dolphChebyshev.attenuation(T(0.001 + 0.1 * p))); break;
	}
}

template <class T> Exec windowed(Mk& mk) {
	const size_t n = mk.len(2) | 1;
	const int band = int(mk.below(5)), kind = int(mk.below(5)), how = int(mk.below(3));
	const double p = mk.real(0, 1);
	const T lo = T(mk.real(0.02, 0.5)), hi = T(mk.real(0.5, 0.98));
	const Response response{ mk.real(0, 1), mk.real(0, 1) };
	const bool shared = mk.chance(1, 4); // the window is the caller's signal
	const auto w = mk.in<T>(n, 1);
	return [=](Ex& ex) {
		auto all = [&](const auto& win) {
			switch (band) {
				case 0: design<T>(ex, n, how, Fir.Lowpass.Windowed.Cutoff(lo).Window(win)); break;
				case 1: design<T>(ex, n, how, Fir.Highpass.Windowed.Cutoff(lo).Window(win)); break;
				case 2: design<T>(ex, n, how, Fir.Bandpass.Windowed.Band(lo, hi).Window(win)); break;
				case 3: design<T>(ex, n, how, Fir.Bandstop.Windowed.Band(lo, hi).Window(win)); break;
				default: design<T>(ex, n, how, Fir.Arbitrary.Windowed.Response(response).Window(win)); break;
			}
		};
		if (shared) {
			all(w.view());
		}
		else {
			withWindow<T>(kind, p, all);
		}
	};
}

template <class T> Exec hilbertWindowed(Mk& mk) {
	const size_t n = mk.len(2);
	const int kind = int(mk.below(5)), how = int(mk.below(2));
	const double p = mk.real(0, 1);
	return [=](Ex& ex) {
		withWindow<T>(kind, p, [&](const auto& win) { designHilbert<T>(ex, n, how, Fir.Hilbert.Windowed.Window(win), win); });
	};
}

template <class T> Exec rejectedWindowed(Mk& mk) {
	const int kind = int(mk.below(5));
	const T bad = mk.chance(1, 2) ? T(mk.real(1.01, 5)) : T(-mk.real(0.01, 5));
	const size_t n = mk.len(2) | 1;
	return [=](Ex& ex) {
		switch (kind) {
			case 0: design<T>(ex, n, 0, ex.lib([&] { return Fir.Lowpass.Windowed.Cutoff(bad); })); break;
			case 1: design<T>(ex, n, 0, ex.lib([&] { return Fir.Highpass.Windowed.Cutoff(bad); })); break;
			case 2: design<T>(ex, n, 0, ex.lib([&] { return Fir.Bandpass.Windowed.Band(T(0.8), T(0.3)); })); break;
			case 3: design<T>(ex, n, 0, ex.lib([&] { return Fir.Bandstop.Windowed.Band(T(0.5), bad); })); break;
			default: ex.lib([&] { (void)Fir.Lowpass.LeastSquares.Cutoff(bad, bad); }); break;
		}
		ex.put(int(kind));
	};
}

template <class T> Exec leastSquares(Mk& mk) {
	static const size_t cap[] = { 8, 20, 40, 60 };
	const size_t n = mk.len(1, cap[mk.scale()]);
	const int band = int(mk.below(5)), how = int(mk.below(3));
	const T f0 = T(mk.real(0.05, 0.25)), f1 = T(mk.real(0.25, 0.45)), f2 = T(mk.real(0.55, 0.75)), f3 = T(mk.real(0.75, 0.95));
	const T wt = T(mk.real(0, 1)), wl = T(mk.real(0.5, 2)), wh = T(mk.real(0.5, 2));
	const bool useGrid = mk.chance(1, 3) && n >= 4;
	const size_t grid = useGrid ? size_t(mk.range(2, long(n))) : 0;
	const Response response{ mk.real(0, 1), mk.real(0, 1) };
	const Response weight{ mk.real(1, 2), mk.real(0, 0.5) };
	return [=](Ex& ex) {
		switch (band) {
			case 0: design<T>(ex, n, how, Fir.Lowpass.LeastSquares.Cutoff(f1, f2).Weight(wl, wt, wh).Grid(grid)); break;
			case 1: design<T>(ex, n, how, Fir.Highpass.LeastSquares.Cutoff(f1, f2).Weight(wl, wt, wh).Grid(grid)); break;
			case 2: design<T>(ex, n, how, Fir.Bandpass.LeastSquares.Band(f0, f1, f2, f3).Weight(wl, wt, wh, wt, wl).Grid(grid)); break;
			case 3: design<T>(ex, n, how, Fir.Bandstop.LeastSquares.Band(f0, f1, f2, f3).Weight(wl, wt, wh, wt, wl).Grid(grid)); break;
			default: design<T>(ex, n, how, Fir.Arbitrary.LeastSquares.Response(response).Weight(weight).Grid(grid)); break;
		}
	};
}
template <class T> Exec hilbertLeastSquares(Mk& mk) {
	static const size_t cap[] = { 8, 20, 36, 50 };
	const size_t n = mk.len(2, cap[mk.scale()]);
	const int how = int(mk.below(2));
	const T width = T(mk.real(0.01, 0.2)), wt = T(mk.real(0, 1));
	return [=](Ex& ex) { designHilbert<T>(ex, n, how, Fir.Hilbert.LeastSquares.TransitionWidth(width).TransitionWeight(wt), 0); };
}

// The band transforms, into other memory and in place.
template <class T> Exec transforms(Mk& mk) {
	const size_t n = mk.len(1) | 1;
	const auto f = mk.in<T>(n);
	const auto* fs = mk.obj([&] { return Signal<T>(f.begin(), f.end()); });
	const int kind = int(mk.below(5));
	const bool inPlace = mk.chance(1, 3);
	const T freq = T(mk.real(0.05, 0.95));
	const size_t even = (n + 1) / 2 / 2 * 2;
	const auto g = mk.in<T>(even ? 2 * even - 1 : 0);
	const auto* h = mk.obj([&] { return Signal<T>(g.begin(), g.end()); });
	return [=](Ex& ex) {
		if (kind == 4) {
			if (even) {
				auto o = ex.out<T>(even);
				auto v = o.view();
				ex.lib([&] { fir::HalfbandToHilbertEven(v, *h); });
				ex.put(o);
			}
			return;
		}
		auto o = inPlace ? ex.copy(f) : ex.out<T>(n);
		auto v = o.view();
		const auto run = [&](const auto& src) {
			switch (kind) {
				case 0: fir::MirrorResponse(v, src); break;
				case 1: fir::ComplementaryResponse(v, src); break;
				case 2: fir::ShiftResponse(v, src, freq); break;
				default: fir::HalfbandToHilbertOdd(v, src); break;
			}
		};
		ex.lib([&] { inPlace ? run(v) : run(*fs); });
		ex.put(o);
	};
}

template <class T> Exec kernels(Mk& mk) {
	const size_t n = mk.len(1) | 1;
	const int kind = int(mk.below(4));
	const T c = T(mk.real(0.05, 0.95));
	const auto w = mk.in<T>(n, 1);
	const Response response{ mk.real(0, 1), mk.real(0, 1) };
	return [=](Ex& ex) {
		auto o = ex.out<T>(n);
		auto v = o.view();
		ex.lib([&] {
			switch (kind) {
				case 0: fir::KernelWindowedLowpass(v, c, windows::blackman); break;
				case 1: fir::KernelWindowedLowpass(v, c, w.view()); break;
				case 2: fir::KernelWindowedArbitrary(v, response, windows::hamming); break;
				default: fir::KernelWindowedArbitrary(v, response, w.view()); break;
			}
		});
		ex.put(o);
		ex.put(ex.lib([&] { return NormalizedFrequency(c, T(48000)); }));
	};
}

#if PART == 0
Reg f1("Windowed FIR design, float", [](Mk& mk) { return windowed<F>(mk); }, 3);
#elif PART == 1
Reg f2("Windowed FIR design, double", [](Mk& mk) { return windowed<D>(mk); }, 3);
#elif PART == 2
Reg f3("Least squares FIR design, float", [](Mk& mk) { return leastSquares<F>(mk); }, 3);
Reg f4("Hilbert least squares, float", [](Mk& mk) { return hilbertLeastSquares<F>(mk); }, 1);
#elif PART == 3
Reg f5("Least squares FIR design, double", [](Mk& mk) { return leastSquares<D>(mk); }, 3);
Reg f6("Hilbert least squares, double", [](Mk& mk) { return hilbertLeastSquares<D>(mk); }, 1);
#else
Reg f7("FIR band transforms", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return transforms<typename decltype(t)::type>(mk); }); }, 3);
Reg f8("FIR kernels", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return kernels<typename decltype(t)::type>(mk); }); }, 2);
Reg f9("Hilbert windowed", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return hilbertWindowed<typename decltype(t)::type>(mk); }); }, 2);
Reg f10("FIR design, rejected parameters", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return rejectedWindowed<typename decltype(t)::type>(mk); }); }, 1);
#endif

} // namespace
