// Transforms, convolution, overlap-add.
#include "ops.hpp"

#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Math/OverlapAdd.hpp>

using namespace ops;

namespace {

using F = float;
using D = double;
using CF = std::complex<float>;
using CD = std::complex<double>;
template <class A, class B> struct Pair { using a = A; using b = B; };

size_t fftLen(Mk& mk) {
	const size_t n = mk.len(1);
	const uint64_t k = mk.below(6);
	static const size_t primes[] = { 53, 59, 67, 101, 103, 127, 131, 149 };
	return k == 0 ? primes[n % 8] : k == 1 ? size_t(1) << (n % 9) : n;
}

template <class R> Exec fftReal(Mk& mk) {
	using C = std::complex<R>;
	const int form = int(mk.below(6));
	const size_t n = fftLen(mk);
	const auto a = mk.in<R>(n);
	const auto s = mk.in<C>(n / 2 + 1);
	const auto f = mk.in<C>(n);
	const auto* own = mk.obj([&] { return Signal<R>(a.begin(), a.end()); });
	return [=](Ex& ex) {
		switch (form) {
			case 0: ex.put(ex.lib([&] { return Fft(a.view(), FFT_FULL); })); break;
			case 1: ex.put(ex.lib([&] { return Fft(*own, FFT_HALF); })); break;
			case 2: {
				auto o = ex.out<C>(n);
				ex.lib([&] { Fft(o.spec(), a.view()); });
				ex.put(o);
				break;
			}
			case 3: {
				auto o = ex.out<C>(n / 2 + 1);
				ex.lib([&] { Fft(o.spec(), *own); });
				ex.put(o);
				break;
			}
			case 4: {
				if (n >= 2) {
					ex.put(ex.lib([&] { return Ifft(s.spec(), FFT_HALF, n % 2 == 0); }));
				}
				auto o = ex.out<R>(n);
				ex.lib([&] { Ifft(o.view(), s.spec()); });
				ex.put(o);
				break;
			}
			default: {
				ex.put(ex.lib([&] { return Ifft(f.spec(), FFT_FULL); }));
				auto o = ex.out<R>(n);
				ex.lib([&] { Ifft(o.view(), f.spec()); });
				ex.put(o);
			}
		}
	};
}

template <class R> Exec fftComplex(Mk& mk) {
	using C = std::complex<R>;
	const int form = int(mk.below(6));
	const size_t n = fftLen(mk);
	const auto a = mk.in<C>(n);
	const auto* own = mk.obj([&] { return Spectrum<C>(a.begin(), a.end()); });
	return [=](Ex& ex) {
		switch (form) {
			case 0: ex.put(ex.lib([&] { return Fft(a.view()); })); break;
			case 1: ex.put(ex.lib([&] { return Ifft(*own); })); break;
			case 2: {
				auto o = ex.out<C>(n);
				ex.lib([&] { Fft(o.spec(), a.view()); });
				ex.put(o);
				break;
			}
			case 3: {
				auto o = ex.out<C>(n);
				ex.lib([&] { Ifft(o.view(), a.spec()); });
				ex.put(o);
				break;
			}
			case 4: { // in place
				auto o = ex.copy(a);
				ex.lib([&] { Fft(o.spec(), SignalView<const C>(o.begin(), o.end())); });
				ex.put(o);
				break;
			}
			default: {
				auto o = ex.copy(a);
				ex.lib([&] { Ifft(o.view(), SpectrumView<const C>(o.begin(), o.end())); });
				ex.put(o);
			}
		}
	};
}

template <class T> Exec shift(Mk& mk) {
	const int form = int(mk.below(6));
	const size_t n = mk.len(0);
	const auto a = mk.in<T>(n);
	const auto* own = mk.obj([&] { return Spectrum<T>(a.begin(), a.end()); });
	return [=](Ex& ex) {
		switch (form) {
			case 0: ex.put(ex.lib([&] { return FftShift(*own); })); break;
			case 1: ex.put(ex.lib([&] { return IfftShift(*own); })); break;
			case 2: {
				auto o = ex.out<T>(n);
				ex.lib([&] { FftShift(o.spec(), a.spec()); });
				ex.put(o);
				break;
			}
			case 3: {
				auto o = ex.out<T>(n);
				ex.lib([&] { IfftShift(o.view(), a.view()); });
				ex.put(o);
				break;
			}
			case 4: {
				auto o = ex.copy(a);
				auto v = o.view();
				ex.lib([&] { FftShift(v, v); });
				ex.put(o);
				break;
			}
			default: {
				auto o = ex.copy(a);
				auto v = o.spec();
				ex.lib([&] { IfftShift(v, v); });
				ex.put(o);
			}
		}
	};
}

// 0: offset, 1: full, 2: central; each returned or into an output, clearing or accumulating.
template <class A, class B> Exec conv(Mk& mk) {
	using R = decltype(A() * B());
	const int form = int(mk.below(3));
	const int dest = int(mk.below(3));
	const size_t n = mk.len(0, 600);
	const size_t m = mk.len(0, 300);
	const size_t full = n && m ? n + m - 1 : 0;
	const size_t central = n && m ? std::max(n, m) - std::min(n, m) + 1 : 0;
	const size_t off = mk.below(full + 1);
	const size_t len = form == 0 ? mk.below(full - off + 1) : form == 1 ? full : central;
	const auto a = mk.in<A>(n);
	const auto b = mk.in<B>(m);
	const auto acc = mk.in<R>(len);
	return [=](Ex& ex) {
		if (dest == 0) {
			if (form == 0) {
				ex.put(ex.lib([&] { return Convolution(a.view(), b.view(), off, len); }));
			}
			else if (form == 1) {
				ex.put(ex.lib([&] { return Convolution(a.view(), b.view(), CONV_FULL); }));
			}
			else {
				ex.put(ex.lib([&] { return Convolution(a.view(), b.view(), CONV_CENTRAL); }));
			}
			return;
		}
		const bool clear = dest == 1;
		auto go = [&](auto& o) {
			ex.lib([&] {
				form == 0 ? Convolution(o.view(), a.view(), b.view(), off, clear)
						  : form == 1 ? Convolution(o.view(), a.view(), b.view(), CONV_FULL, clear)
									  : Convolution(o.view(), a.view(), b.view(), CONV_CENTRAL, clear);
			});
			ex.put(o);
		};
		if (clear) {
			auto o = ex.out<R>(len);
			go(o);
		}
		else {
			auto o = ex.copy(acc);
			go(o);
		}
	};
}

template <class A, class B> Exec ola(Mk& mk) {
	using R = decltype(A() * B());
	const int form = int(mk.below(3));
	const int dest = int(mk.below(3));
	const size_t n = mk.len(0, 900);
	const size_t m = mk.len(0, 300);
	const size_t full = n && m ? n + m - 1 : 0;
	const size_t central = n && m ? std::max(n, m) - std::min(n, m) + 1 : 0;
	const size_t off = mk.below(full + 1);
	const size_t len = form == 0 ? mk.below(full - off + 1) : form == 1 ? full : central;
	const size_t shorter = std::min(n, m);
	// 0 lets the library choose.
	const bool automatic = mk.chance(1, 3);
	const size_t chunk = automatic ? 0 : std::max<size_t>(1, 2 * shorter) - 1 + mk.below(mk.scale() >= 2 ? 200 : 20);
	const auto a = mk.in<A>(n);
	const auto b = mk.in<B>(m);
	const auto acc = mk.in<R>(len);
	return [=](Ex& ex) {
		if (dest == 0) {
			if (form == 0) {
				ex.put(ex.lib([&] { return automatic ? OverlapAdd(a.view(), b.view(), off, len) : OverlapAdd(a.view(), b.view(), off, len, chunk); }));
			}
			else if (form == 1) {
				ex.put(ex.lib([&] { return automatic ? OverlapAdd(a.view(), b.view(), CONV_FULL) : OverlapAdd(a.view(), b.view(), CONV_FULL, chunk); }));
			}
			else {
				ex.put(ex.lib([&] { return automatic ? OverlapAdd(a.view(), b.view(), CONV_CENTRAL) : OverlapAdd(a.view(), b.view(), CONV_CENTRAL, chunk); }));
			}
			return;
		}
		const bool clear = dest == 1;
		auto go = [&](auto& o) {
			ex.lib([&] {
				if (automatic && clear) {
					form == 0 ? OverlapAdd(o.view(), a.view(), b.view(), off) : form == 1 ? OverlapAdd(o.view(), a.view(), b.view(), CONV_FULL) : OverlapAdd(o.view(), a.view(), b.view(), CONV_CENTRAL);
				}
				else {
					form == 0 ? OverlapAdd(o.view(), a.view(), b.view(), off, chunk, clear)
							  : form == 1 ? OverlapAdd(o.view(), a.view(), b.view(), CONV_FULL, chunk, clear)
										  : OverlapAdd(o.view(), a.view(), b.view(), CONV_CENTRAL, chunk, clear);
				}
			});
			ex.put(o);
		};
		if (clear) {
			auto o = ex.out<R>(len);
			go(o);
		}
		else {
			auto o = ex.copy(acc);
			go(o);
		}
	};
}

template <class P> using PA = typename P::a;

#if PART == 0
Reg r1("Fft/Ifft(real)", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return fftReal<typename decltype(t)::type>(mk); }); }, 4);
Reg r2("Fft/Ifft(complex)", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return fftComplex<typename decltype(t)::type>(mk); }); }, 4);
Reg r3("FftShift, IfftShift", [](Mk& mk) { return mk.types<F, CD>([&](auto t) { return shift<typename decltype(t)::type>(mk); }); });
Reg r6("FourierBin2Frequency, FourierFrequency2Bin", [](Mk& mk) -> Exec {
	const size_t n = mk.len(1);
	const size_t bin = mk.below(n);
	const uint64_t rate = mk.range(1, 192000);
	return [=](Ex& ex) {
		const double f = ex.lib([&] { return FourierBin2Frequency(bin, n, rate); });
		ex.puts(f, ex.lib([&] { return FourierFrequency2Bin(f, n, rate); }));
	};
}, 1);
#elif PART == 1
Reg r4("Convolution", [](Mk& mk) { return mk.types<Pair<F, F>, Pair<D, D>, Pair<CF, F>, Pair<F, CF>, Pair<CD, CD>>([&](auto t) { return conv<typename decltype(t)::type::a, typename decltype(t)::type::b>(mk); }); }, 4);
#else
Reg r5("OverlapAdd", [](Mk& mk) { return mk.types<Pair<F, F>, Pair<D, D>, Pair<CF, F>, Pair<D, CD>, Pair<CD, CD>>([&](auto t) { return ola<typename decltype(t)::type::a, typename decltype(t)::type::b>(mk); }); }, 4);
#endif

} // namespace
