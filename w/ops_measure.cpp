// Frequency responses and filter measurement.
#include "ops_types.hpp"

#include <dspbb/Filtering/MeasureFilter.hpp>

#include <variant>

using namespace ops;

namespace dspbb {
template <class T> void serialise(ops::Sink& s, const LowpassParameters<T>& p) {
	s(std::array<T, 4>{ p.passbandEdge, p.stopbandEdge, p.passbandRipple, p.stopbandAtten });
}
template <class T> void serialise(ops::Sink& s, const HighpassParameters<T>& p) {
	s(std::array<T, 4>{ p.stopbandEdge, p.passbandEdge, p.stopbandAtten, p.passbandRipple });
}
template <class T> void serialise(ops::Sink& s, const BandpassParameters<T>& p) {
	s(std::array<T, 7>{ p.lowerStopbandEdge, p.passbandLowerEdge, p.passbandUpperEdge, p.upperStopbandEdge, p.lowerStopbandAtten, p.passbandRipple, p.upperStopbandAtten });
}
template <class T> void serialise(ops::Sink& s, const BandstopParameters<T>& p) {
	s(std::array<T, 7>{ p.lowerPassbandEdge, p.stopbandLowerEdge, p.stopbandUpperEdge, p.upperPassbandEdge, p.lowerPassbandRipple, p.stopbandAtten, p.upperPassbandRipple });
}
} // namespace dspbb

namespace {

using F = float;
using D = double;

// A plausible amplitude response: pass and stop bands with ripples and slopes between them; one in five is something else.
template <class T> Exec measure(Mk& mk) {
	const size_t n = mk.len(mk.chance(1, 3) ? 0 : 24, 1500);
	const int bands = int(mk.below(5)); // which of the four kinds; 4: arbitrary
	const double e1 = mk.real(0.2, 0.4), e2 = mk.real(0.6, 0.8), slope = mk.real(0.03, 0.1), rp = mk.real(0, 0.05), rs = mk.real(0, 0.05);
	const bool odd = mk.chance(1, 5);
	const auto x = mk.inBy<T>(n, [&](Rng& r, size_t i) {
		if (odd) {
			return T(std::fabs(r.sym()));
		}
		const double f = double(i) / double(std::max<size_t>(2, n) - 1);
		const auto step = [&](double at) { return 1 / (1 + std::exp(-(f - at) / slope * 8)); };
		double a;
		switch (bands) {
			case 0: a = 1 - step(e1); break;
			case 1: a = step(e1); break;
			case 2: a = step(e1) * (1 - step(e2)); break;
			case 3: a = 1 - step(e1) * (1 - step(e2)); break;
			default: a = 0.5 + 0.5 * std::cos(40 * f); break;
		}
		const double ripple = std::cos(70 * f);
		return T(std::fabs(a * (1 + rp * ripple) + (1 - a) * rs * ripple));
	});
	const int kind = int(mk.below(2));
	const auto* s = mk.obj([&] { return Spectrum<T>(x.begin(), x.end()); });
	return [=](Ex& ex) {
		const SpectrumView<const T> v = x.spec();
		const auto put = [&](const auto& p) { std::visit([&](const auto& q) { if constexpr (!std::is_same_v<std::decay_t<decltype(q)>, std::monostate>) ex.put(q); }, p); ex.put(int(p.index())); };
		if (kind == 0) {
			put(ex.lib([&] { return MeasureFilter(v); }));
		}
		else {
			put(ex.lib([&] { return MeasureFilter(*s); }));
		}
		switch (bands) {
			case 0: ex.put(ex.lib([&] { return MeasureLowpassFilter(v); })); break;
			case 1: ex.put(ex.lib([&] { return MeasureHighpassFilter(v); })); break;
			case 2: ex.put(ex.lib([&] { return MeasureBandpassFilter(*s); })); break;
			case 3: ex.put(ex.lib([&] { return MeasureBandstopFilter(*s); })); break;
			default: break;
		}
	};
}

template <class T> Exec response(Mk& mk) {
	const size_t n = mk.len(1, 100);
	const auto h = mk.in<T>(n, 1);
	const size_t grid = mk.chance(1, 3) ? 0 : 2 + mk.below(200);
	const int kind = int(mk.below(4));
	Rng g(mk.next());
	const size_t np = 1 + mk.below(8);
	const size_t nz = mk.below(np + 1);
	const auto z = mk.put(genRoots<T>(g, nz, 1.0)), p = mk.put(genRoots<T>(g, np, 0.9));
	const auto* zpk = mk.obj([&] { return DiscreteZeroPoleGain<T>{ T(0.7), FactoredPolynomial<T>(z.begin(), z.end()), FactoredPolynomial<T>(p.begin(), p.end()) }; });
	return [=](Ex& ex) {
		const auto r = ex.lib([&] {
			switch (kind) {
				case 0: return FrequencyResponse(h.view(), grid);
				case 1: return FrequencyResponse(*zpk, grid);
				case 2: return FrequencyResponse(DiscreteTransferFunction<T>(*zpk), grid);
				default: return FrequencyResponse(CascadedBiquad<T>(*zpk), grid);
			}
		});
		ex.put(r);
	};
}

Reg m1("Filter measurement", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return measure<typename decltype(t)::type>(mk); }); }, 3);
Reg m2("Frequency response", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return response<typename decltype(t)::type>(mk); }); }, 3);

} // namespace
