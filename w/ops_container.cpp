// The signal container and views on it.
#include "ops_types.hpp"

#include <dspbb/Primitives/SignalArithmetic.hpp>

using namespace ops;

namespace {

using F = float;
using D = double;
using CF = std::complex<float>;

// A sequence of container operations.
template <class T> Exec container(Mk& mk) {
	const size_t n = mk.len(0, 100), m = mk.len(0, 60);
	const auto a = mk.in<T>(n), b = mk.in<T>(m);
	const auto* other = mk.obj([&] { return Signal<T>(b.begin(), b.end()); });
	const uint64_t script = mk.next();
	const size_t steps = 1 + mk.below(12);
	const T v = T(typename std::conditional_t<isComplex<T>, RealT<T>, T>(mk.real(-2, 2)));
	return [=](Ex& ex) {
		auto s = ex.lib([&] { return Signal<T>(a.begin(), a.end()); });
		Rng r(script);
		for (size_t i = 0; i < steps; ++i) {
			const size_t at = s.size() ? r.below(s.size() + 1) : 0;
			switch (r.below(14)) {
				case 0: ex.lib([&] { s.push_back(v); }); break;
				case 1:
					if (at == 0) {
						ex.lib([&] { s.clear(); });
					}
					break;
				case 2: ex.lib([&] { s.append(*other); }); break;
				case 3: ex.lib([&] { s.prepend(*other); }); break;
				case 4: ex.lib([&] { s.insert(at, *other); }); break;
				case 5: ex.lib([&] { s.insert(s.begin() + long(at), b.begin(), b.end()); }); break;
				case 6:
					if (at < s.size()) {
						ex.lib([&] { s.erase(s.begin() + long(at)); });
					}
					break;
				case 7: ex.lib([&] { s.erase(s.begin() + long(at / 2), s.begin() + long(at)); }); break;
				case 8: ex.lib([&] { s.resize(s.size() + at % 7, v); }); break;
				case 9: ex.lib([&] { s.reserve(s.size() + at); }); break;
				case 10: ex.lib([&] { s = *other; }); break;
				case 11: {
					auto t = ex.lib([&] { return s; });
					ex.lib([&] { t.extract_front(at); });
					ex.put(t);
					break;
				}
				case 12: {
					auto t = ex.lib([&] { return s.extract_back(at); });
					ex.put(t);
					break;
				}
				default: {
					const auto w = AsView(s).subsignal(at / 2, at - at / 2);
					ex.put(w);
					ex.put((unsigned long)w.size());
					break;
				}
			}
			ex.put(s);
		}
		auto t = ex.lib([&] { return std::move(s); });
		ex.put(t);
		if (t.size() == other->size()) {
			ex.lib([&] { t += *other; });
			ex.put(t);
		}
		ex.lib([&] { t *= v; });
		ex.put(t);
	};
}

Reg c1("Signal container", [](Mk& mk) { return mk.types<F, D, CF>([&](auto t) { return container<typename decltype(t)::type>(mk); }); }, 2);

} // namespace
