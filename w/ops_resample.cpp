// Rate conversion: decimation, expansion, polyphase filters, interpolation, resampling.
#include "ops_types.hpp"

#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>

using namespace ops;

namespace dspbb {
static void serialise(ops::Sink& s, const InterpolSuspensionPoint& p) {
	s((unsigned long)p.firstInputSample);
	s((unsigned long)p.startPoint);
}
static void serialise(ops::Sink& s, const ResampleSuspensionPoint& p) {
	s((unsigned long)p.firstInputSample);
	s((long)p.startPoint.Numerator());
	s((long)p.startPoint.Denominator());
}
template <class T, eSignalDomain Dm> void serialise(ops::Sink& s, const PolyphaseFilter<T, Dm>& p) {
	s((unsigned long)p.num_phases());
	s(p.Buffer());
}
} // namespace dspbb

namespace {

using F = float;
using D = double;
using CF = std::complex<float>;

template <class T> Exec rates(Mk& mk) {
	const size_t n = mk.len(0), rate = 1 + mk.below(12);
	const auto x = mk.in<T>(n);
	const int kind = int(mk.below(4));
	return [=](Ex& ex) {
		if (kind == 0) {
			auto o = ex.out<T>((n + rate - 1) / rate);
			ex.lib([&] { Decimate(o.view(), x.view(), rate); });
			ex.put(o);
		}
		else if (kind == 1) {
			auto o = ex.out<T>(n * rate);
			ex.lib([&] { Expand(o.view(), x.view(), rate); });
			ex.put(o);
		}
		else {
			const auto r = ex.lib([&] { return kind == 2 ? Decimate(x.view(), rate) : Expand(x.view(), rate); });
			ex.put(r);
		}
	};
}

template <class S> const PolyphaseFilter<S, TIME_DOMAIN>* polyphase(Mk& mk, size_t m, size_t phases) {
	const auto h = mk.in<S>(m, 1);
	return mk.obj([&] { return PolyphaseDecompose(Signal<S>(h.begin(), h.end()), phases); });
}

template <class S> Exec decompose(Mk& mk) {
	const size_t phases = 1 + mk.below(9), m = mk.len(mk.chance(1, 4) ? 1 : phases, std::max<size_t>(phases, 200));
	const auto h = mk.in<S>(m, 1);
	const auto* p = polyphase<S>(mk, m, phases);
	const int kind = int(mk.below(3));
	return [=](Ex& ex) {
		if (kind == 0) {
			auto o = ex.out<S>(m);
			const auto v = ex.lib([&] { return PolyphaseDecompose(o.view(), h.view(), phases); });
			ex.put(o);
			ex.puts(v.num_phases(), v.size_original(), v.size_per_phase());
			for (size_t i = 0; i < phases; ++i) {
				ex.put(v[i]);
			}
		}
		else if (kind == 1) {
			ex.put(ex.lib([&] { return PolyphaseNormalized(*p); }));
		}
		else {
			auto c = ex.lib([&] { return *p; });
			ex.lib([&] { PolyphaseNormalize(c); });
			ex.put(c);
			ex.lib([&] { c = *p; });
			ex.put(c);
			auto e = ex.lib([&] { return std::move(c); });
			ex.put(e);
			ex.lib([&] { c = std::move(e); });
			ex.put(c);
		}
	};
}

template <class T> Exec interpolate(Mk& mk) {
	using S = RealT<T>;
	const size_t phases = 1 + mk.below(7), n = mk.len(0, 300), m = mk.len(mk.chance(1, 4) ? 1 : phases, std::max<size_t>(phases, 120));
	const auto* p = polyphase<S>(mk, m, phases);
	const auto x = mk.in<T>(n);
	const size_t full = InterpolLength(n, m, phases, CONV_FULL);
	const size_t first = mk.below(full + 1), count = mk.below(full - first + 1);
	const bool ret = mk.chance(1, 2);
	return [=](Ex& ex) {
		if (ret) {
			ex.put(ex.lib([&] { return Interpolate(x.view(), *p, first, count); }));
			ex.puts(InterpolLength(n, m, phases, CONV_CENTRAL), InterpolFilterCutoff(phases));
			return;
		}
		auto o = ex.out<T>(count);
		ex.put(ex.lib([&] { return Interpolate(o.view(), x.view(), *p, first); }));
		ex.put(o);
	};
}

template <class T> Exec resample(Mk& mk) {
	using S = RealT<T>;
	const size_t phases = 1 + mk.below(7), n = mk.len(0, 200), m = mk.len(mk.chance(1, 4) ? 1 : phases, std::max<size_t>(phases, 100));
	const auto* p = polyphase<S>(mk, m, phases);
	const auto x = mk.in<T>(n);
	const int64_t num = mk.range(1, 9), den = mk.range(1, 9);
	const Rational<int64_t> rate{ num, den };
	const auto full = ResampleLength(n, m, phases, rate, CONV_FULL);
	const Rational<int64_t> start{ int64_t(mk.below(40)), int64_t(1 + mk.below(7)) };
	const int kind = int(mk.below(4));
	const double part = mk.real(0, 1);
	return [=](Ex& ex) {
		const int64_t room = start <= full ? int64_t(floor(full - start)) : -1;
		const size_t count = room > 0 ? size_t(double(room) * part) : 0;
		if (kind == 0) {
			ex.put(ex.lib([&] { return Resample(x.view(), *p, rate, CONV_FULL); }));
		}
		else if (kind == 1) {
			ex.put(ex.lib([&] { return Resample(x.view(), *p, rate, CONV_CENTRAL); }));
		}
		else if (kind == 2 && room >= 0) {
			ex.put(ex.lib([&] { return Resample(x.view(), *p, rate, start, count); }));
		}
		else if (room >= 0) {
			auto o = ex.out<T>(count);
			ex.put(ex.lib([&] { return Resample(o.view(), x.view(), *p, rate, start); }));
			ex.put(o);
		}
		const auto d = ex.lib([&] { return ResampleDelay(m, phases, rate); });
		ex.puts((long)d.Numerator(), (long)d.Denominator(), ResampleFilterCutoff(rate, phases));
	};
}

Reg r1("Decimate, Expand", [](Mk& mk) { return mk.types<F, D, CF>([&](auto t) { return rates<typename decltype(t)::type>(mk); }); }, 2);
Reg r2("Polyphase decomposition", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return decompose<typename decltype(t)::type>(mk); }); }, 2);
Reg r3("Interpolate", [](Mk& mk) { return mk.types<F, D, CF>([&](auto t) { return interpolate<typename decltype(t)::type>(mk); }); }, 3);
Reg r4("Resample", [](Mk& mk) { return mk.types<F, D, CF>([&](auto t) { return resample<typename decltype(t)::type>(mk); }); }, 3);

} // namespace
