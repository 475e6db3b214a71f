// Filtering: FIR (central, full, stateful), IIR realisations.
#include "ops_types.hpp"

#include <dspbb/Filtering/FIR/Filter.hpp>
#include <dspbb/Filtering/IIR/Filter.hpp>

#ifndef PART
#define PART 0
#endif

using namespace ops;

namespace {

using F = float;
using D = double;
using CF = std::complex<float>;
using CD = std::complex<double>;

// A FIR stream in one or two blocks.
template <class T> Exec firStream(Mk& mk) {
	using S = RealT<T>;
	const size_t n = mk.len(0), m = mk.len(1, 60);
	const auto x = mk.in<T>(n);
	const auto h = mk.in<S>(m);
	const size_t cut = mk.below(n + 1);
	const bool ola = mk.chance(1, 2);
	const int how = int(mk.below(2));
	const auto st = mk.in<T>(m - 1);
	return [=](Ex& ex) {
		auto state = ex.lib([&] { return Signal<T>(st.begin(), st.end()); });
		for (int b = 0; b < 2; ++b) {
			const auto in = b ? x.view().subsignal(cut) : x.view().subsignal(0, cut);
			if (in.size() == 0 && ola) {
				continue;
			}
			if (how) {
				const auto r = ex.lib([&] {
					if constexpr (std::is_same_v<T, S>) {
						if (ola) {
							return Filter(in, h.view(), state, FILTER_OLA);
						}
					}
					return Filter(in, h.view(), state, FILTER_CONV);
				});
				ex.put(r);
			}
			else {
				auto o = ex.out<T>(in.size());
				ex.lib([&] {
					if constexpr (std::is_same_v<T, S>) {
						if (ola) {
							Filter(o.view(), in, h.view(), state, FILTER_OLA);
							return;
						}
					}
					Filter(o.view(), in, h.view(), state, FILTER_CONV);
				});
				ex.put(o);
			}
		}
		ex.put(state);
	};
}

template <class T> Exec firWhole(Mk& mk) {
	const size_t n = mk.len(0), m = mk.len(0, std::max<size_t>(1, std::min<size_t>(n, 80)));
	const auto x = mk.in<T>(n), h = mk.in<T>(m);
	const int kind = int(mk.below(4)), how = int(mk.below(2));
	return [=](Ex& ex) {
		const auto xs = x.view(), hs = h.view();
		if (how) {
			const auto r = ex.lib([&] {
				switch (kind) {
					case 0: return Filter(xs, hs, CONV_CENTRAL, FILTER_CONV);
					case 1: return Filter(xs, hs, CONV_CENTRAL, FILTER_OLA);
					case 2: return Filter(xs, hs, CONV_FULL, FILTER_CONV);
					default: return Filter(xs, hs, CONV_FULL, FILTER_OLA);
				}
			});
			ex.put(r);
			return;
		}
		auto o = ex.out<T>(kind < 2 ? ConvolutionLength(n, m, CONV_CENTRAL) : ConvolutionLength(n, m, CONV_FULL));
		ex.lib([&] {
			switch (kind) {
				case 0: Filter(o.view(), xs, hs, CONV_CENTRAL, FILTER_CONV); break;
				case 1: Filter(o.view(), xs, hs, CONV_CENTRAL, FILTER_OLA); break;
				case 2: Filter(o.view(), xs, hs, CONV_FULL, FILTER_CONV); break;
				default: Filter(o.view(), xs, hs, CONV_FULL, FILTER_OLA); break;
			}
		});
		ex.put(o);
	};
}

// kind 0 direct form I, 1 direct form II, 2 cascade.
template <class T> Exec iirStream(Mk& mk) {
	using S = RealT<T>;
	const size_t n = mk.len(0);
	const auto x = mk.in<T>(n);
	const size_t np = 1 + mk.below(mk.scale() ? 8 : 3), nz = mk.below(np + 1);
	Rng g(mk.next());
	const auto z = mk.put(genRoots<S>(g, nz, 1.0)), p = mk.put(genRoots<S>(g, np, 0.85));
	const S gain = S(mk.real(0.1, 2));
	const auto* zpk = mk.obj([&] { return DiscreteZeroPoleGain<S>{ gain, FactoredPolynomial<S>(z.begin(), z.end()), FactoredPolynomial<S>(p.begin(), p.end()) }; });
	const auto* tf = mk.obj([&] { return DiscreteTransferFunction<S>(*zpk); });
	const auto* bq = mk.obj([&] { return CascadedBiquad<S>(*zpk); });
	const int kind = int(mk.below(3)), how = int(mk.below(4));
	const size_t cut = mk.below(n + 1);
	const size_t extra = mk.below(3);
	return [=](Ex& ex) {
		const auto go = [&](auto state, const auto& sys) {
			const auto a = x.view().subsignal(0, cut), b = x.view().subsignal(cut);
			if (how == 0) {
				auto o = ex.out<T>(n);
				ex.lib([&] {
					Filter(o.view().subsignal(0, cut), a, sys, state);
					Filter(o.view().subsignal(cut), b, sys, state);
				});
				ex.put(o);
			}
			else if (how == 1) {
				const auto xs = ex.lib([&] { return Signal<T>(x.begin(), x.end()); });
				const auto r = ex.lib([&] { return Filter(xs, sys, state); });
				ex.put(r);
			}
			else if (how == 2) {
				// Sample by sample, reset half way.
				for (size_t i = 0; i < n; ++i) {
					if (i == cut) {
						ex.lib([&] { state.reset(); });
					}
					ex.put(T(ex.lib([&] { return state.feed(x[i], sys); })));
				}
			}
			else {
				// A copy of the state taken half way continues like the original.
				auto o = ex.out<T>(n), q = ex.out<T>(n - cut);
				ex.lib([&] { Filter(o.view().subsignal(0, cut), a, sys, state); });
				auto copy = ex.lib([&] { return state; });
				ex.lib([&] { Filter(o.view().subsignal(cut), b, sys, state); });
				ex.lib([&] { Filter(q.view(), b, sys, copy); });
				ex.put(o);
				ex.put(q);
			}
			ex.put((unsigned long)state.order());
		};
		switch (kind) {
			case 0: go(ex.lib([&] { return DirectFormI<T>(tf->order() + extra); }), *tf); break;
			case 1: go(ex.lib([&] { return DirectFormII<T>(tf->order() + extra); }), *tf); break;
			default: go(ex.lib([&] { return CascadedForm<T>(2 * bq->sections.size() + extra); }), *bq); break;
		}
	};
}

#if PART == 0
Reg f1("FIR stream", [](Mk& mk) { return mk.types<F, D, CF, CD>([&](auto t) { return firStream<typename decltype(t)::type>(mk); }); }, 4);
#elif PART == 1
Reg f2("FIR filter", [](Mk& mk) { return mk.types<F, D, CF, CD>([&](auto t) { return firWhole<typename decltype(t)::type>(mk); }); }, 3);
#else
Reg f3("IIR stream", [](Mk& mk) { return mk.types<F, D, CF, CD>([&](auto t) { return iirStream<typename decltype(t)::type>(mk); }); }, 4);
#endif

} // namespace
