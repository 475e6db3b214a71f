// C13: copies are independent, moves transfer everything - for every object type, over histories of construction,
// copying, moving, assigning, mutating and destroying, with hostile reuse of released memory and failing allocations.
#include "../sim/util.hpp"

#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/IIR/Realizations.hpp>
#include <dspbb/LTISystems/Systems.hpp>
#include <dspbb/Math/Polynomials.hpp>
#include <dspbb/Math/Rational.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <dspbb/Utility/Interval.hpp>

#include <concepts>
#include <memory>
#include <optional>

using namespace sim;
using namespace dspbb;

namespace {

struct Step {
	uint32_t kind; // which constructor or mutation
	uint64_t seed;
};
using Log = std::vector<Step>;
using Blob = std::vector<unsigned char>;

struct Writer {
	Blob b;
	template <class V> void raw(const V& v) {
		static_assert(std::is_trivially_copyable_v<V>);
		const auto* p = reinterpret_cast<const unsigned char*>(&v);
		b.insert(b.end(), p, p + sizeof v);
	}
	void size(size_t n) { raw(uint64_t(n)); }
	template <class Seq> void seq(const Seq& s) {
		size(s.size());
		for (auto it = s.begin(); it != s.end(); ++it) {
			raw(*it);
		}
	}
};

template <class T> T val(Rng& r) {
	if constexpr (isComplex<T>) {
		const RealT<T> a = RealT<T>(r.sym());
		return T(a, RealT<T>(r.sym()));
	}
	else {
		return T(r.sym());
	}
}
size_t len(Rng& r, size_t lo, size_t hi) {
	return lo + size_t(r.chance(1, 6) ? r.below(hi - lo + 1) : r.below(std::min<size_t>(hi - lo, 7) + 1));
}

// ---- what can be done with each type ---------------------------------------------------------------
template <class T, eSignalDomain D>
struct SignalOps {
	using Obj = BasicSignal<T, D>;
	static constexpr const char* name = "signal";
	static constexpr uint32_t makes = 4, muts = 6;
	static Obj make(Step s) {
		Rng r(s.seed);
		switch (s.kind) {
			case 0: return Obj();
			case 1: return Obj(len(r, 0, 200), val<T>(r));
			case 2: return Obj{ val<T>(r), val<T>(r), val<T>(r) };
			default: {
				Obj o(len(r, 0, 200));
				for (auto& x : o) {
					x = val<T>(r);
				}
				return o;
			}
		}
	}
	static void mutate(Obj& o, Step s) {
		Rng r(s.seed);
		switch (s.kind) {
			case 0:
				if (!o.empty()) {
					o[r.below(o.size())] = val<T>(r);
				}
				break;
			case 1: o.resize(len(r, 0, 300), val<T>(r)); break;
			case 2: o.push_back(val<T>(r)); break;
			case 3: {
				Obj p(len(r, 0, 40), val<T>(r));
				o.append(p);
				break;
			}
			case 4: o.clear(); break;
			default:
				for (auto& x : AsView(o)) {
					x = val<T>(r);
				}
		}
	}
	static void snapshot(const Obj& o, Writer& w) { w.seq(o); }
	static void scrub(Obj& o) {
		for (auto& x : o) {
			x = T(99);
		}
	}
};

template <class T>
std::vector<std::complex<T>> rootsFor(Rng& r, size_t nr, size_t nc, T radius = T(2)) {
	std::vector<std::complex<T>> v;
	for (size_t i = 0; i < nr; ++i) {
		v.push_back({ radius * T(r.sym()), T(0) });
	}
	for (size_t i = 0; i < nc; ++i) {
		const std::complex<T> c(radius * T(r.sym()), T(0.01) + radius * T(r.unit()));
		v.push_back(c);
		v.push_back(std::conj(c));
	}
	return v;
}
template <class T> FactoredPolynomial<T> makeRoots(Rng& r) {
	const size_t nr = len(r, 0, 20), nc = len(r, 0, 12);
	const auto v = rootsFor<T>(r, nr, nc);
	return FactoredPolynomial<T>(v.begin(), v.end());
}
template <class T> void mutateRoots(FactoredPolynomial<T>& o, uint32_t kind, Rng& r) {
	switch (kind % 5) {
		case 0:
			if (o.num_real_roots()) {
				o.real_roots()[r.below(o.num_real_roots())] = val<T>(r);
			}
			break;
		case 1:
			if (o.num_complex_pairs()) {
				o.complex_pairs()[r.below(o.num_complex_pairs())] = val<std::complex<T>>(r);
			}
			break;
		case 2: {
			const size_t nr = len(r, 0, 20), nc = len(r, 0, 12);
			o.resize(nr, nc, val<T>(r), val<std::complex<T>>(r));
			break;
		}
		case 3: {
			const size_t total = o.num_roots();
			const size_t nr = total % 2 + 2 * r.below(total / 2 + 1);
			o.regroup(nr, val<T>(r), val<std::complex<T>>(r));
			break;
		}
		default:
			for (auto& x : o.real_roots()) {
				x = val<T>(r);
			}
			for (auto& x : o.complex_pairs()) {
				x = val<std::complex<T>>(r);
			}
	}
}
template <class T> void snapRoots(const FactoredPolynomial<T>& o, Writer& w) {
	w.size(o.order());
	w.seq(o.real_roots());
	w.seq(o.complex_pairs());
	const T y = o(T(0.37));
	w.raw(y);
}
template <class T> void scrubRoots(FactoredPolynomial<T>& o) {
	for (auto& x : o.real_roots()) {
		x = T(99);
	}
	for (auto& x : o.complex_pairs()) {
		x = std::complex<T>(99, 99);
	}
}
template <class T>
struct RootOps {
	using Obj = FactoredPolynomial<T>;
	static constexpr const char* name = "root set";
	static constexpr uint32_t makes = 3, muts = 5;
	static Obj make(Step s) {
		Rng r(s.seed);
		switch (s.kind) {
			case 0: return Obj();
			case 1: return makeRoots<T>(r);
			default: return Obj{ std::complex<T>(T(1), T(0)), std::complex<T>(T(2), T(3)), std::complex<T>(T(2), T(-3)) };
		}
	}
	static void mutate(Obj& o, Step s) {
		Rng r(s.seed);
		mutateRoots(o, s.kind, r);
	}
	static void snapshot(const Obj& o, Writer& w) { snapRoots(o, w); }
	static void scrub(Obj& o) { scrubRoots(o); }
};

template <class T> Polynomial<T> makePoly(Rng& r, size_t lo = 0) {
	std::vector<T> v(len(r, lo, 40));
	for (auto& x : v) {
		x = val<T>(r);
	}
	return Polynomial<T>(v.begin(), v.end());
}
template <class T> void mutatePoly(Polynomial<T>& o, uint32_t kind, Rng& r) {
	if (kind % 2) {
		o.resize(len(r, 0, 60), val<T>(r));
	}
	else if (o.size()) {
		o.coefficients()[r.below(o.size())] = val<T>(r);
	}
}
template <class T>
struct PolyOps {
	using Obj = Polynomial<T>;
	static constexpr const char* name = "polynomial";
	static constexpr uint32_t makes = 3, muts = 2;
	static Obj make(Step s) {
		Rng r(s.seed);
		switch (s.kind) {
			case 0: return Obj();
			case 1: return makePoly<T>(r);
			default: return ExpandPolynomial(makeRoots<T>(r));
		}
	}
	static void mutate(Obj& o, Step s) {
		Rng r(s.seed);
		mutatePoly(o, s.kind, r);
	}
	static void snapshot(const Obj& o, Writer& w) {
		w.seq(o.coefficients());
		w.size(o.order());
		const T y = o(T(0.4));
		w.raw(y);
	}
	static void scrub(Obj& o) {
		for (auto& x : o.coefficients()) {
			x = T(99);
		}
	}
};

template <class T, eDiscretization D>
struct ZpkOps {
	using Obj = ZeroPoleGain<T, D>;
	static constexpr const char* name = "zero-pole-gain system";
	static constexpr uint32_t makes = 1, muts = 12;
	static Obj make(Step s) {
		Rng r(s.seed);
		const T g = val<T>(r);
		auto z = makeRoots<T>(r);
		return Obj{ g, std::move(z), makeRoots<T>(r) };
	}
	static void mutate(Obj& o, Step s) {
		Rng r(s.seed);
		if (s.kind < 5) {
			mutateRoots(o.zeros, s.kind, r);
		}
		else if (s.kind < 10) {
			mutateRoots(o.poles, s.kind, r);
		}
		else if (s.kind == 10) {
			o.gain = val<T>(r);
		}
		else {
			o.zeros = o.poles;
		}
	}
	static void snapshot(const Obj& o, Writer& w) {
		w.raw(o.gain);
		snapRoots(o.zeros, w);
		snapRoots(o.poles, w);
	}
	static void scrub(Obj& o) {
		o.gain = T(99);
		scrubRoots(o.zeros);
		scrubRoots(o.poles);
	}
};

template <class T, eDiscretization D>
struct TfOps {
	using Obj = TransferFunction<T, D>;
	static constexpr const char* name = "transfer function";
	static constexpr uint32_t makes = 3, muts = 5;
	static Obj make(Step s) {
		Rng r(s.seed);
		switch (s.kind) {
			case 0: return Obj();
			case 1: {
				auto n = makePoly<T>(r);
				return Obj(n, makePoly<T>(r));
			}
			default: {
				const auto zpk = ZpkOps<T, D>::make({ 0, s.seed });
				return Obj(zpk);
			}
		}
	}
	static void mutate(Obj& o, Step s) {
		Rng r(s.seed);
		if (s.kind == 4) {
			o.numerator = o.denominator;
		}
		else {
			mutatePoly(s.kind < 2 ? o.numerator : o.denominator, s.kind, r);
		}
	}
	static void snapshot(const Obj& o, Writer& w) {
		PolyOps<T>::snapshot(o.numerator, w);
		PolyOps<T>::snapshot(o.denominator, w);
	}
	static void scrub(Obj& o) {
		PolyOps<T>::scrub(o.numerator);
		PolyOps<T>::scrub(o.denominator);
	}
};

template <class T>
CascadedBiquad<T> biquads(Rng& r, size_t maxReal, size_t maxPairs) {
	auto z = rootsFor<T>(r, r.below(maxReal + 1), r.below(maxPairs + 1), T(1));
	auto p = rootsFor<T>(r, r.below(maxReal + 1), r.below(maxPairs + 1), T(0.6));
	DiscreteZeroPoleGain<T> zpk{ T(0.7), FactoredPolynomial<T>(z.begin(), z.end()), FactoredPolynomial<T>(p.begin(), p.end()) };
	return CascadedBiquad<T>(zpk);
}
template <class T>
struct BiquadOps {
	using Obj = CascadedBiquad<T>;
	static constexpr const char* name = "biquad cascade";
	static constexpr uint32_t makes = 2, muts = 4;
	static Obj make(Step s) {
		Rng r(s.seed);
		return s.kind == 0 ? Obj() : biquads<T>(r, 6, 5);
	}
	static void mutate(Obj& o, Step s) {
		Rng r(s.seed);
		switch (s.kind) {
			case 0:
				if (!o.sections.empty()) {
					o.sections[r.below(o.sections.size())].numerator[r.below(3)] = val<T>(r);
				}
				break;
			case 1: {
				typename Obj::Biquad b;
				b.numerator[1] = val<T>(r);
				o.sections.push_back(b);
				break;
			}
			case 2:
				if (!o.sections.empty()) {
					o.sections.erase(o.sections.begin() + ptrdiff_t(r.below(o.sections.size())));
				}
				break;
			default: o = biquads<T>(r, 4, 4);
		}
	}
	static void snapshot(const Obj& o, Writer& w) {
		w.size(o.sections.size());
		for (auto& s : o.sections) {
			w.raw(s.numerator);
			w.raw(s.denominator);
			w.raw(s.numOrder);
			w.raw(s.denOrder);
		}
		w.size(o.order());
	}
	static void scrub(Obj& o) {
		for (auto& s : o.sections) {
			s.numerator = { T(99), T(99), T(99) };
		}
	}
};

template <class T, template <class> class Form, bool Cascade>
struct RealizationOps {
	using Obj = Form<T>;
	using S = RealT<T>;
	using Sys = std::conditional_t<Cascade, CascadedBiquad<S>, DiscreteTransferFunction<S>>;
	static constexpr const char* name = Cascade ? "cascaded form" : "direct form";
	static constexpr uint32_t makes = 2, muts = 6;
	// A gentle system of at most the given order.
	static Sys system(size_t order, Rng& r) {
		if constexpr (Cascade) {
			Sys s;
			const size_t n = std::min<size_t>(order / 2, 1 + r.below(3));
			for (size_t i = 0; i < n; ++i) {
				typename Sys::Biquad b;
				b.numerator = { S(r.sym()), S(r.sym()), S(r.sym()) };
				b.denominator = { S(0.3 * r.sym()), S(0.3 * r.sym()) };
				b.numOrder = b.denOrder = 2;
				s.sections.push_back(b);
			}
			return s;
		}
		else {
			const size_t k = r.below(order + 1);
			std::vector<S> n(1 + r.below(k + 1)), d(k + 1);
			for (auto& x : n) {
				x = S(r.sym());
			}
			for (auto& x : d) {
				x = S(0.5 * r.sym()) / S(k + 1);
			}
			d.back() = S(1);
			return Sys(Polynomial<S>(n.begin(), n.end()), Polynomial<S>(d.begin(), d.end()));
		}
	}
	static Obj make(Step s) {
		Rng r(s.seed);
		if (s.kind == 0) {
			Obj o;
			o.order(len(r, 0, 14));
			return o;
		}
		return Obj(len(r, 0, 14));
	}
	static void mutate(Obj& o, Step s) {
		Rng r(s.seed);
		switch (s.kind) {
			case 0:
				if (r.chance(1, 3)) {
					o.order(len(r, 0, 16));
				}
				break;
			case 1:
				if (r.chance(1, 3)) {
					o.reset();
				}
				break;
			case 2:
			case 3: {
				const auto sys = system(o.order(), r);
				for (size_t i = len(r, 1, 9); i > 0; --i) {
					o.feed(val<T>(r), sys);
				}
				break;
			}
			default: {
				const auto sys = system(o.order(), r);
				std::vector<T> in(len(r, 0, 60)), out;
				for (auto& x : in) {
					x = val<T>(r);
				}
				out.resize(in.size());
				o.feed(in.begin(), in.end(), out.begin(), sys);
			}
		}
	}
	// State is only visible through what comes out next: a copy is fed with a probe.
	static void snapshot(const Obj& o, Writer& w) {
		w.size(o.order());
		Obj probe(o);
		Rng r(7);
		const auto sys = system(o.order(), r);
		for (size_t i = 0; i < 2 * o.order() + 3; ++i) {
			const T y = probe.feed(val<T>(r), sys);
			w.raw(y);
		}
	}
	static void scrub(Obj& o) { o.reset(); }
};

template <class T>
struct PolyphaseOps {
	using Obj = PolyphaseFilter<T, TIME_DOMAIN>;
	static constexpr const char* name = "polyphase filter";
	static constexpr uint32_t makes = 5, muts = 4;
	static BasicSignal<T, TIME_DOMAIN> taps(Rng& r) {
		BasicSignal<T, TIME_DOMAIN> h(len(r, 1, 120));
		for (auto& x : h) {
			x = T(0.2) + T(r.unit());
		}
		return h;
	}
	static Obj make(Step s) {
		Rng r(s.seed);
		switch (s.kind) {
			case 0: return Obj();
			case 1: {
				const size_t n = len(r, 0, 100);
				Obj o(n, 1 + r.below(9));
				for (auto& x : o.Buffer()) {
					x = T(0.2) + T(r.unit());
				}
				return o;
			}
			case 2:
			case 3: {
				const auto h = taps(r);
				return PolyphaseDecompose(h, 1 + r.below(9));
			}
			default: {
				auto h = taps(r);
				const size_t n = 1 + r.below(h.size());
				const auto d = PolyphaseDecompose(h, n);
				return PolyphaseNormalized(d);
			}
		}
	}
	static void mutate(Obj& o, Step s) {
		Rng r(s.seed);
		switch (s.kind) {
			case 0:
				if (!o.Buffer().empty()) {
					o.Buffer()[r.below(o.Buffer().size())] = T(0.2) + T(r.unit());
				}
				break;
			case 1:
				if (o.size_original()) {
					auto p = o[r.below(o.num_phases())];
					for (auto& x : p) {
						x = T(0.2) + T(r.unit());
					}
				}
				break;
			case 2:
				if (o.size_original() >= o.num_phases()) {
					PolyphaseNormalize(o);
				}
				break;
			default:
				for (size_t i = 0; i < o.num_phases(); ++i) {
					for (auto& x : o[i]) {
						x += T(1);
					}
				}
		}
	}
	static void snapshot(const Obj& o, Writer& w) {
		w.size(o.num_phases());
		w.size(o.size_original());
		w.size(o.size_per_phase());
		w.seq(o.Buffer());
		for (size_t i = 0; i < o.num_phases(); ++i) {
			w.seq(o[i]);
		}
	}
	static void scrub(Obj& o) {
		for (auto& x : o.Buffer()) {
			x = T(99);
		}
		for (size_t i = 0; i < o.num_phases(); ++i) {
			for (auto& x : o[i]) {
				x = T(99);
			}
		}
	}
};

struct RationalOps {
	using Obj = Rational<int64_t>;
	static constexpr const char* name = "rational number";
	static constexpr uint32_t makes = 2, muts = 6;
	static Obj make(Step s) {
		Rng r(s.seed);
		return s.kind ? Obj(int64_t(r.below(100)) - 50) : Obj(int64_t(r.below(200)) - 100, 1 + int64_t(r.below(30)));
	}
	static void mutate(Obj& o, Step s) {
		Rng r(s.seed);
		switch (s.kind) {
			case 0: ++o; break;
			case 1: o--; break;
			case 2: o += int64_t(r.below(5)); break;
			case 3: o -= Obj(int64_t(r.below(7)), 3); break;
			case 4: o = Obj(int64_t(r.below(90)), 7); break;
			default: o = o + o;
		}
		if (std::abs(o.Numerator()) > 1000000 || o.Denominator() > 1000000) {
			o = Obj(1, 3);
		}
	}
	static void snapshot(const Obj& o, Writer& w) {
		w.raw(o.Numerator());
		w.raw(o.Denominator());
	}
	static void scrub(Obj& o) { o = Obj(99, 5); }
	static bool sameValue(const Obj& a, const Obj& b) { return a.Numerator() * b.Denominator() == b.Numerator() * a.Denominator(); }
};

template <class T>
struct IntervalOps {
	using Obj = Interval<T>;
	static constexpr const char* name = "interval";
	static constexpr uint32_t makes = 1, muts = 3;
	static Obj make(Step s) {
		Rng r(s.seed);
		const T a = T(int(r.below(60)) - 30);
		return Obj(a, a + T(r.below(50)));
	}
	static void mutate(Obj& o, Step s) {
		Rng r(s.seed);
		switch (s.kind) {
			case 0: o += T(r.below(9)); break;
			case 1: o -= T(r.below(9)); break;
			default: o = EncompassingUnion(o, make(s));
		}
	}
	static void snapshot(const Obj& o, Writer& w) {
		w.raw(o.first);
		w.raw(o.last);
		w.raw(o.size());
	}
	static void scrub(Obj& o) { o = Obj(T(99), T(99)); }
	static bool sameValue(const Obj& a, const Obj& b) { return a.first == b.first && a.last == b.last; }
};

// ---- the simulation ---------------------------------------------------------------------------------
struct Model {
	bool known = false; // false: moved from, or a target of a failed assignment: any value
	Log log;
	Blob expected;
};

template <class Ops>
struct Run {
	using Obj = typename Ops::Obj;
	static constexpr size_t HELD = 4;

	// Objects live in separately allocated slots and in a growing vector.
	std::unique_ptr<Obj> held[HELD];
	Model heldM[HELD];
	std::vector<Obj>* vec = nullptr;
	std::vector<Model> vecM;

	uint32_t pFault = 0;
	unsigned faults = 0, ops = 0, copies = 0, moves = 0, destroyed = 0;
	uint64_t signature = 0;
	const char* current = "";

	size_t slots() const { return HELD + vecM.size(); }
	Obj* at(size_t k) { return k < HELD ? held[k].get() : &(*vec)[k - HELD]; }
	Model& model(size_t k) { return k < HELD ? heldM[k] : vecM[k - HELD]; }

	static Blob snap(const Obj& o) {
		Writer w;
		Ops::snapshot(o, w);
		return w.b;
	}
	static Blob replayed(const Log& log) {
		Obj o = Ops::make(log[0]);
		for (size_t i = 1; i < log.size(); ++i) {
			Ops::mutate(o, log[i]);
		}
		return snap(o);
	}
	static Model modelOf(const Log& log) { return { true, log, replayed(log) }; }
	Step drawStep(uint32_t kinds) {
		Step s;
		s.kind = draw(kinds, "op.variant");
		s.seed = draw(1 << 20, "op.data");
		return s;
	}

	void checkAll() {
		for (size_t k = 0; k < slots(); ++k) {
			Obj* o = at(k);
			const Model& m = model(k);
			if (!o || !m.known) {
				continue;
			}
			const Blob b = snap(*o);
			if (b != m.expected) {
				fail("value-changed", "after %s: a %s in %s %zu no longer has its own value (%zu bytes of state, expected %zu, equal but for content: %d)", current, Ops::name, k < HELD ? "slot" : "vector element", k < HELD ? k : k - HELD, b.size(), m.expected.size(), int(b.size() == m.expected.size()));
			}
		}
		// Where the library itself compares objects, it must see the copies as equal, and what has changed since as different.
		if constexpr (requires(const Obj& a, const Obj& b) { { a == b } -> std::same_as<bool>; }) {
			for (size_t k = 0; k < slots(); ++k) {
				for (size_t j = 0; j < slots(); ++j) {
					const Obj *a = at(k), *b = at(j);
					if (!a || !b || !model(k).known || !model(j).known) {
						continue;
					}
					const bool same = Ops::sameValue(*a, *b);
					if ((*a == *b) != same || (*a != *b) == same) {
						fail("equality", "after %s: two objects of type %s %s the same value, but comparing them says %s", current, Ops::name, same ? "have" : "do not have", *a == *b ? "equal" : *a != *b ? "different" : "neither");
					}
				}
			}
		}
	}

	template <class F>
	bool op(const char* name, bool mayFail, F&& f) {
		current = name;
		uint64_t failAt = 0;
		bool persistent = false;
		if (mayFail && pFault && flip(pFault, 5, "op.fault")) {
			failAt = 1 + draw(5, "op.failat");
			persistent = draw(2, "op.persistent");
		}
		bool failed = false;
		uint64_t fired = 0;
		{
			heap::Scope scope;
			if (failAt) {
				heap::armFault(failAt, persistent);
			}
			try {
				f();
			}
			catch (const std::bad_alloc&) {
				failed = true;
			}
			fired = failAt ? heap::faultsFired() : 0;
			heap::disarmFault();
		}
		if (failed) {
			if (!fired) {
				fail("spurious-failure", "%s of a %s ran out of memory although memory was available", name, Ops::name);
			}
			++faults;
			count("fault.alloc_failed");
			trace("  allocation failed in %s", name);
		}
		return !failed;
	}

	// A slot holding a known value; SIZE_MAX if there is none.
	size_t drawKnown(const char* label) {
		const size_t n = slots();
		size_t k = draw(n, label);
		for (size_t i = 0; i < n; ++i, k = (k + 1) % n) {
			if (at(k) && model(k).known) {
				return k;
			}
		}
		return SIZE_MAX;
	}
	// A slot holding an object, whatever its value.
	size_t drawObject(const char* label) {
		const size_t n = slots();
		size_t k = draw(n, label);
		for (size_t i = 0; i < n; ++i, k = (k + 1) % n) {
			if (at(k)) {
				return k;
			}
		}
		return SIZE_MAX;
	}
	void movedFrom(size_t k) {
		model(k) = {};
		// Whatever it still holds is its own: writing to it must not reach the moved value.
		if (draw(2, "op.scrub")) {
			heap::Scope scope;
			Ops::scrub(*at(k));
		}
	}
	static Obj identity(Obj o) { return o; }
	static Obj mutatedCopy(Obj o, Step s) {
		Ops::mutate(o, s);
		return o;
	}

	void step() {
		const uint32_t which = draw(21, "op.kind");
		const size_t slot = draw(HELD, "op.slot");
		signature = mix(signature, mix(which, slot));
		switch (which) {
			case 0:
			case 1: {
				const Step s = drawStep(Ops::makes);
				std::unique_ptr<Obj> p;
				trace("slot %zu: construct %s, variant %u", slot, Ops::name, s.kind);
				if (op("construction", true, [&] { p = std::make_unique<Obj>(Ops::make(s)); })) {
					Model m = modelOf({ s });
					held[slot] = std::move(p); // the previous object dies
					heldM[slot] = std::move(m);
				}
				break;
			}
			case 2: {
				if (vecM.size() >= 6) {
					break;
				}
				const Step s = drawStep(Ops::makes);
				if (op("construction in a vector", true, [&] { vec->push_back(Ops::make(s)); })) {
					vecM.push_back(modelOf({ s }));
				}
				break;
			}
			case 3:
			case 4: {
				const size_t src = drawKnown("op.source");
				if (src == SIZE_MAX || src == slot) {
					break;
				}
				const Log log = model(src).log;
				std::unique_ptr<Obj> p;
				trace("slot %zu: copy of %zu", slot, src);
				if (op("copy construction", true, [&] { p = std::make_unique<Obj>(*at(src)); })) {
					held[slot] = std::move(p);
					heldM[slot] = modelOf(log);
					++copies;
				}
				break;
			}
			case 5: {
				if (vecM.size() >= 6) {
					break;
				}
				const size_t src = drawKnown("op.source");
				if (src == SIZE_MAX) {
					break;
				}
				// Possibly one of the vector's own elements, while it grows.
				const Log log = model(src).log;
				trace("vector push_back(copy of %zu)", src);
				if (op("copy into a growing vector", true, [&] { vec->push_back(*at(src)); })) {
					vecM.push_back(modelOf(log));
					++copies;
				}
				break;
			}
			case 6: {
				const size_t src = drawKnown("op.source");
				if (src == SIZE_MAX || src == slot) {
					break;
				}
				const Log log = model(src).log;
				std::unique_ptr<Obj> p;
				trace("slot %zu: move from %zu", slot, src);
				if (op("move construction", true, [&] { p = std::make_unique<Obj>(std::move(*at(src))); })) {
					movedFrom(src);
					held[slot] = std::move(p);
					heldM[slot] = modelOf(log);
					++moves;
				}
				break;
			}
			case 7:
			case 8: {
				const size_t src = drawKnown("op.source");
				const size_t dst = drawObject("op.target");
				if (src == SIZE_MAX || dst == SIZE_MAX) {
					break;
				}
				const Log log = model(src).log;
				trace("%zu = %zu (copy)", dst, src);
				const bool ok = op(src == dst ? "copying an object onto itself" : "copy assignment", true, [&] {
					Obj& r = (*at(dst) = static_cast<const Obj&>(*at(src)));
					if (&r != at(dst)) {
						fail("assignment-result", "copy assignment of a %s does not return the object assigned to", Ops::name);
					}
				});
				if (ok) {
					model(dst) = modelOf(log);
					++copies;
				}
				else if (src != dst) {
					if (model(dst).known) {
						// A valid object, whatever its value: it can be read and copied.
						const Blob left = snap(*at(dst));
						std::optional<Obj> copy;
						{
							heap::Scope scope;
							copy.emplace(static_cast<const Obj&>(*at(dst)));
						}
						const bool same = snap(*copy) == left;
						{
							heap::Scope scope;
							copy.reset();
						}
						if (!same) {
							fail("invalid-target", "a copy assignment of a %s that failed for lack of memory left its target in a state that a copy of it does not have", Ops::name);
						}
					}
					model(dst) = {};
				}
				break;
			}
			case 9: {
				// a = b = c, using the result of the assignment as a value.
				const size_t c = drawKnown("op.source");
				const size_t b = drawObject("op.target"), a = drawObject("op.target2");
				if (c == SIZE_MAX || a == SIZE_MAX || a == b || b == c || a == c) {
					break;
				}
				const Log log = model(c).log;
				trace("%zu = %zu = %zu", a, b, c);
				if (op("chained assignment", false, [&] { *at(a) = *at(b) = *at(c); })) {
					model(a) = modelOf(log);
					model(b) = model(a);
					copies += 2;
				}
				break;
			}
			case 10:
			case 11: {
				const size_t src = drawKnown("op.source");
				const size_t dst = drawObject("op.target");
				if (src == SIZE_MAX || dst == SIZE_MAX || src == dst) {
					break;
				}
				const Log log = model(src).log;
				trace("%zu = move of %zu", dst, src);
				if (op("move assignment", false, [&] {
						Obj& r = (*at(dst) = std::move(*at(src)));
						if (&r != at(dst)) {
							fail("assignment-result", "move assignment of a %s does not return the object assigned to", Ops::name);
						}
					})) {
					movedFrom(src);
					model(dst) = modelOf(log);
					++moves;
				}
				break;
			}
			case 12: {
				const size_t a = drawObject("op.target"), b = drawObject("op.target2");
				if (a == SIZE_MAX || a == b) {
					break;
				}
				trace("swap %zu, %zu", a, b);
				if (op("swap", false, [&] {
						using std::swap;
						swap(*at(a), *at(b));
					})) {
					std::swap(model(a), model(b));
					moves += 3;
				}
				break;
			}
			case 13:
			case 14:
			case 15: {
				const size_t k = drawKnown("op.target");
				if (k == SIZE_MAX || model(k).log.size() > 12) {
					break;
				}
				const Step s = drawStep(Ops::muts);
				trace("mutate %zu, variant %u", k, s.kind);
				if (op("modification", false, [&] { Ops::mutate(*at(k), s); })) {
					Log log = model(k).log;
					log.push_back(s);
					model(k) = modelOf(log);
				}
				break;
			}
			case 16: {
				trace("destroy slot %zu", slot);
				op("destruction", false, [&] { held[slot].reset(); });
				heldM[slot] = {};
				++destroyed;
				break;
			}
			case 17: {
				if (vecM.empty()) {
					break;
				}
				const size_t k = draw(vecM.size(), "op.at");
				trace("erase vector element %zu", k);
				if (op("erasing a vector element", false, [&] { vec->erase(vec->begin() + ptrdiff_t(k)); })) {
					vecM.erase(vecM.begin() + ptrdiff_t(k));
					++destroyed;
				}
				break;
			}
			case 18: {
				if (vecM.size() < 2) {
					break;
				}
				const size_t k = draw(vecM.size(), "op.at");
				trace("rotate the vector by %zu", k);
				if (op("rotating a vector", false, [&] { std::rotate(vec->begin(), vec->begin() + ptrdiff_t(k), vec->end()); })) {
					std::rotate(vecM.begin(), vecM.begin() + ptrdiff_t(k), vecM.end());
				}
				break;
			}
			case 19: {
				// The whole vector is copied and the original destroyed.
				bool allKnown = true;
				for (auto& m : vecM) {
					allKnown &= m.known;
				}
				if (!allKnown) {
					break;
				}
				std::vector<Obj>* other = nullptr;
				trace("copy the vector, destroy the original");
				if (op("copying a vector of objects", true, [&] { other = new std::vector<Obj>(*vec); })) {
					heap::Scope scope;
					delete vec;
					vec = other;
					copies += unsigned(vecM.size());
				}
				break;
			}
			default: {
				// By value through functions.
				const size_t src = drawKnown("op.source");
				if (src == SIZE_MAX || !held[slot] || src == slot) {
					break;
				}
				Log log = model(src).log;
				if (draw(2, "op.modify") && log.size() < 12) {
					const Step s = drawStep(Ops::muts);
					trace("slot %zu = modified(copy of %zu)", slot, src);
					if (op("passing by value to a function that modifies", false, [&] { *held[slot] = mutatedCopy(*at(src), s); })) {
						log.push_back(s);
						heldM[slot] = modelOf(log);
					}
				}
				else {
					trace("slot %zu = identity(copy of %zu)", slot, src);
					if (op("passing by value", false, [&] { *held[slot] = identity(*at(src)); })) {
						heldM[slot] = modelOf(log);
					}
				}
				++copies;
			}
		}
	}

	void run() {
		heap::configure(drawHeap("heap"));
		pFault = draw(4, "mix.fault");
		{
			heap::Scope scope;
			vec = new std::vector<Obj>;
		}
		const uint32_t steps = 8 + draw(60, "steps");
		for (uint32_t i = 0; i < steps; ++i) {
			step();
			++ops;
			checkAll();
			heap::checkIntegrity(current);
			uint64_t h = 0;
			for (size_t k = 0; k < slots(); ++k) {
				h = mix(h, model(k).known ? hashBytes(model(k).expected.data(), model(k).expected.size()) : 1);
			}
			ev(h);
			ev(heap::liveBlocks());
		}
		{
			heap::Scope scope;
			delete vec;
			for (auto& h : held) {
				h.reset();
			}
		}
		if (heap::liveBlocks() != 0) {
			fail("leak", "%llu blocks remain allocated after every %s was destroyed", (unsigned long long)heap::liveBlocks(), Ops::name);
		}
		if (copies + moves > 1) {
			nontrivial(mix(signature, hashBytes(Ops::name, strlen(Ops::name))));
		}
		count("op.copies", copies);
		count("op.moves", moves);
		count("op.destroyed_or_replaced", destroyed);
		distinct("types", hashBytes(__PRETTY_FUNCTION__, sizeof __PRETTY_FUNCTION__));
		summary("%s: %u operations, %u copies, %u moves, %u destroyed, %u failed allocations", Ops::name, ops, copies, moves, destroyed, faults);
	}
};

} // namespace

#define DECLARE(n) void part##n(uint32_t);
DECLARE(1) DECLARE(2) DECLARE(3) DECLARE(4) DECLARE(5) DECLARE(6)
#if PART == 0
static void run(int) {
	const uint32_t k = draw(24, "types");
	switch (k / 4) {
		case 0: return part1(k % 4);
		case 1: return part2(k % 4);
		case 2: return part3(k % 4);
		case 3: return part4(k % 4);
		case 4: return part5(k % 4);
		default: return part6(k % 4);
	}
}
const Workload sim::workload{ "C13", 1, run };
#elif PART == 1
void part1(uint32_t k) {
	switch (k) {
		case 0: return Run<PolyphaseOps<float>>().run();
		case 1: return Run<PolyphaseOps<double>>().run();
		case 2: return Run<RootOps<float>>().run();
		default: return Run<RootOps<double>>().run();
	}
}
#elif PART == 2
void part2(uint32_t k) {
	switch (k) {
		case 0: return Run<ZpkOps<float, eDiscretization::DISCRETE>>().run();
		case 1: return Run<ZpkOps<double, eDiscretization::CONTINUOUS>>().run();
		case 2: return Run<TfOps<float, eDiscretization::DISCRETE>>().run();
		default: return Run<TfOps<double, eDiscretization::CONTINUOUS>>().run();
	}
}
#elif PART == 3
void part3(uint32_t k) {
	switch (k) {
		case 0: return Run<RealizationOps<float, DirectFormI, false>>().run();
		case 1: return Run<RealizationOps<double, DirectFormII, false>>().run();
		case 2: return Run<RealizationOps<double, CascadedForm, true>>().run();
		default: return Run<RealizationOps<std::complex<double>, DirectFormI, false>>().run();
	}
}
#elif PART == 4
void part4(uint32_t k) {
	switch (k) {
		case 0: return Run<SignalOps<float, TIME_DOMAIN>>().run();
		case 1: return Run<SignalOps<std::complex<double>, FREQUENCY_DOMAIN>>().run();
		case 2: return Run<PolyOps<float>>().run();
		default: return Run<PolyOps<double>>().run();
	}
}
#elif PART == 5
void part5(uint32_t k) {
	switch (k) {
		case 0: return Run<BiquadOps<float>>().run();
		case 1: return Run<BiquadOps<double>>().run();
		case 2: return Run<RealizationOps<std::complex<float>, DirectFormII, false>>().run();
		default: return Run<RealizationOps<float, CascadedForm, true>>().run();
	}
}
#elif PART == 6
void part6(uint32_t k) {
	switch (k) {
		case 0: return Run<RationalOps>().run();
		case 1: return Run<IntervalOps<float>>().run();
		case 2: return Run<ZpkOps<double, eDiscretization::DISCRETE>>().run();
		default: return Run<IntervalOps<int64_t>>().run();
	}
}
#endif
