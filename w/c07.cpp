// C07: growable signals and root sets behave like plain sequences under any history of operations, and operations
// that run out of memory leave everything as it was.
#include "../sim/util.hpp"

#include <dspbb/Math/Polynomials.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

#include <list>
#include <optional>

using namespace sim;
using namespace dspbb;

#define WORKLOAD_PARTS 5

namespace {

template <class T> struct Other;
template <> struct Other<float> { using type = double; };
template <> struct Other<double> { using type = float; };
template <> struct Other<std::complex<float>> { using type = std::complex<double>; };
template <> struct Other<std::complex<double>> { using type = std::complex<float>; };

template <class T, class U> T convertTo(const U& u) {
	return T(u);
}

struct SourceFailed {};
// Samples delivered one by one; reading the one at failAt fails.
template <class T> struct Source {
	const T* data;
	size_t size;
	size_t failAt = SIZE_MAX;
	size_t taken = 0;
};
template <class T> struct Once {
	using iterator_category = std::input_iterator_tag;
	using value_type = T;
	using difference_type = ptrdiff_t;
	using pointer = const T*;
	using reference = T;
	Source<T>* source;
	size_t at;
	T operator*() const {
		if (at != source->taken) {
			fail("reread", "sample %zu of a source that can be read only once is read after sample %zu was passed", at, source->taken);
		}
		if (at == source->failAt) {
			throw SourceFailed{};
		}
		return source->data[at];
	}
	Once& operator++() {
		source->taken = std::max(source->taken, ++at);
		return *this;
	}
	Once operator++(int) {
		Once r = *this;
		++*this;
		return r;
	}
	bool operator==(const Once& o) const { return at == o.at; }
	bool operator!=(const Once& o) const { return at != o.at; }
};
template <class T> struct Many {
	using iterator_category = std::random_access_iterator_tag;
	using value_type = T;
	using difference_type = ptrdiff_t;
	using pointer = const T*;
	using reference = T;
	Source<T>* source;
	ptrdiff_t at;
	T operator*() const {
		if (size_t(at) == source->failAt) {
			throw SourceFailed{};
		}
		return source->data[at];
	}
	T operator[](ptrdiff_t n) const { return *(*this + n); }
	Many& operator++() { return ++at, *this; }
	Many& operator--() { return --at, *this; }
	Many operator++(int) { return Many{ source, at++ }; }
	Many operator--(int) { return Many{ source, at-- }; }
	Many& operator+=(ptrdiff_t n) { return at += n, *this; }
	Many& operator-=(ptrdiff_t n) { return at -= n, *this; }
	friend Many operator+(Many a, ptrdiff_t n) { return a += n; }
	friend Many operator+(ptrdiff_t n, Many a) { return a += n; }
	friend Many operator-(Many a, ptrdiff_t n) { return a -= n; }
	friend ptrdiff_t operator-(const Many& a, const Many& b) { return a.at - b.at; }
	bool operator==(const Many& o) const { return at == o.at; }
	bool operator!=(const Many& o) const { return at != o.at; }
	bool operator<(const Many& o) const { return at < o.at; }
	bool operator>(const Many& o) const { return at > o.at; }
	bool operator<=(const Many& o) const { return at <= o.at; }
	bool operator>=(const Many& o) const { return at >= o.at; }
};

template <class T, eSignalDomain D>
struct Run {
	using R = RealT<T>;
	using C = std::complex<R>;
	using U = typename Other<T>::type;
	using S = BasicSignal<T, D>;
	using SU = BasicSignal<U, D>;
	using P = FactoredPolynomial<R>;
	using Q = Polynomial<R>;

	struct Roots {
		std::vector<R> real;
		std::vector<C> pairs;
	};

	std::vector<std::unique_ptr<S>> sig;
	std::vector<std::vector<T>> sigM;
	std::vector<std::unique_ptr<SU>> sigU;
	std::vector<std::vector<U>> sigUM;
	std::vector<std::unique_ptr<P>> fac;
	std::vector<Roots> facM;
	std::vector<std::unique_ptr<Q>> pol;
	std::vector<std::vector<R>> polM;

	uint32_t pFault = 0;
	unsigned faults = 0, ops = 0, retries = 0, refused = 0;
	uint64_t signature = 0;
	const char* current = "";
	uint64_t nextValue = 1;

	T fresh() {
		// Distinct values, exact in either precision.
		const R a = R(nextValue++ % 16000);
		if constexpr (isComplex<T>) {
			return T(a, R(nextValue++ % 16000));
		}
		else {
			return a;
		}
	}
	R freshReal() { return R(nextValue++ % 16000); }
	C freshPair() {
		const R a = freshReal();
		return C(a, R(1) + freshReal());
	}
	std::vector<T> freshVec(size_t n) {
		std::vector<T> v(n);
		for (auto& x : v) {
			x = fresh();
		}
		return v;
	}

	template <class V, class W>
	void same(const char* when, const char* kind, size_t slot, const V& got, const W& want) {
		if (got.size() != want.size()) {
			fail("contents", "%s %s: %s %zu has %zu elements, the same history of a list has %zu", when, current, kind, slot, size_t(got.size()), want.size());
		}
		for (size_t i = 0; i < want.size(); ++i) {
			if (memcmp(&got[i], &want[i], sizeof(want[i])) != 0) {
				fail("contents", "%s %s: %s %zu holds %s at %zu, the same history of a list holds %s", when, current, kind, slot, show(got[i]).c_str(), i, show(want[i]).c_str());
			}
		}
	}

	template <class Sg, class V>
	void checkSignal(const char* when, size_t slot, Sg& s, const V& m, unsigned path) {
		using E = typename Sg::value_type;
		const Sg& c = s;
		if (s.size() != m.size() || s.empty() != m.empty() || s.capacity() < s.size()) {
			fail("contents", "%s %s: signal %zu reports size %zu, empty %d, capacity %zu; the same history of a list has %zu elements", when, current, slot, s.size(), int(s.empty()), s.capacity(), m.size());
		}
		std::vector<E> got;
		switch (path % 9) {
			case 0: got.assign(s.begin(), s.end()); break;
			case 1: got.assign(c.begin(), c.end()); break;
			case 2: got.assign(c.cbegin(), c.cend()); break;
			case 3:
				got.assign(s.rbegin(), s.rend());
				std::reverse(got.begin(), got.end());
				break;
			case 4:
				got.assign(c.crbegin(), c.crend());
				std::reverse(got.begin(), got.end());
				break;
			case 5:
				for (size_t i = 0; i < c.size(); ++i) {
					got.push_back(c[i]);
				}
				break;
			case 6:
				got.assign(c.data(), c.data() + c.size());
				break;
			case 7: {
				auto v = AsConstView(c);
				got.assign(v.begin(), v.end());
				break;
			}
			default: {
				auto v = AsView(s);
				const size_t k = m.size() / 3;
				auto a = v.first(k);
				auto b = v.subsignal(k, m.size() - 2 * k);
				auto d = v.last(k);
				got.assign(a.begin(), a.end());
				got.insert(got.end(), b.begin(), b.end());
				got.insert(got.end(), d.begin(), d.end());
			}
		}
		same(when, "signal", slot, got, m);
	}

	unsigned path = 0;
	void checkAll(const char* when) {
		for (size_t i = 0; i < sig.size(); ++i) {
			checkSignal(when, i, *sig[i], sigM[i], path++);
		}
		for (size_t i = 0; i < sigU.size(); ++i) {
			checkSignal(when, 100 + i, *sigU[i], sigUM[i], path++);
		}
		for (size_t i = 0; i < fac.size(); ++i) {
			auto& p = *fac[i];
			const P& c = p;
			auto& m = facM[i];
			if (c.num_real_roots() != m.real.size() || c.num_complex_pairs() != m.pairs.size() || c.num_complex_roots() != 2 * m.pairs.size() || c.num_roots() != m.real.size() + 2 * m.pairs.size() || c.order() != c.num_roots()) {
				fail("contents", "%s %s: root set %zu has %zu real roots and %zu pairs, expected %zu and %zu", when, current, i, c.num_real_roots(), c.num_complex_pairs(), m.real.size(), m.pairs.size());
			}
			if (path++ & 1) {
				same(when, "real roots of", i, c.real_roots(), m.real);
				same(when, "complex pairs of", i, c.complex_pairs(), m.pairs);
			}
			else {
				same(when, "real roots of", i, p.real_roots(), m.real);
				same(when, "complex pairs of", i, p.complex_pairs(), m.pairs);
			}
		}
		for (size_t i = 0; i < pol.size(); ++i) {
			const Q& c = *pol[i];
			if (c.size() != polM[i].size()) {
				fail("contents", "%s %s: polynomial %zu has %zu coefficients, expected %zu", when, current, i, c.size(), polM[i].size());
			}
			same(when, "polynomial", i, c.coefficients(), polM[i]);
		}
	}

	// Performs one library call, perhaps with failing allocations; true when it (eventually) succeeded.
	template <class F>
	bool op(const char* name, F&& f) {
		current = name;
		uint64_t at = 0;
		bool persistent = false;
		if (pFault && flip(pFault, 6, "step.fault")) {
			at = 1 + draw(3, "step.failat");
			persistent = draw(2, "step.persistent");
		}
		for (int attempt = 0;; ++attempt) {
			bool failed = false;
			uint64_t fired = 0;
			{
				heap::Scope scope;
				const bool arm = attempt == 0 && at;
				if (arm) {
					heap::armFault(at, persistent);
				}
				try {
					f();
				}
				catch (const std::bad_alloc&) {
					failed = true;
				}
				fired = arm ? heap::faultsFired() : 0;
				heap::disarmFault();
			}
			if (!failed) {
				return true;
			}
			if (!fired) {
				fail("spurious-failure", "%s ran out of memory although memory was available", name);
			}
			++faults;
			count("fault.alloc_failed");
			trace("  %s: allocation failed", name);
			checkAll("after a failed");
			if (draw(4, "step.retry") == 3) {
				return false;
			}
			++retries;
		}
	}

	// A call that cannot be granted on any machine.
	template <class F>
	void refuse(const char* name, F&& f) {
		current = name;
		bool thrown = false;
		{
			heap::Scope scope;
			try {
				f();
			}
			catch (const std::bad_alloc&) {
				thrown = true;
			}
			catch (const std::length_error&) {
				thrown = true;
			}
			catch (const std::invalid_argument&) {
				thrown = true;
			}
		}
		if (!thrown) {
			fail("accepted", "%s reported success for a request that cannot be granted", name);
		}
		++refused;
		count("fault.request_refused");
	}

	size_t newSize() { return big ? drawSize(0, 3000, "op.size") : drawSize(0, 60, "op.size"); }
	bool big = false;

	void signalOp() {
		const uint32_t i = draw(sig.size(), "op.slot");
		const uint32_t j = draw(sig.size(), "op.slot2");
		S& a = *sig[i];
		auto& m = sigM[i];
		const S& b = *sig[j];
		const auto& mb = sigM[j];
		const uint32_t which = draw(34, "op.kind");
		signature = mix(signature, mix(which, i * 8 + j));
		std::optional<S> made;
		auto take = [&](std::vector<T> want) {
			// The result replaces slot i.
			heap::Scope scope;
			sig[i] = std::make_unique<S>(std::move(*made));
			made.reset();
			m = std::move(want);
		};
		switch (which) {
			case 0: {
				const size_t n = newSize();
				const T v = fresh();
				trace("signal %u = Signal(%zu, value)", i, n);
				if (op("construction from a count and value", [&] { made.emplace(n, v); })) {
					take(std::vector<T>(n, v));
				}
				break;
			}
			case 1: {
				const T x = fresh(), y = fresh(), z = fresh();
				if (op("construction from a list", [&] { made.emplace(S{ x, y, z }); })) {
					take({ x, y, z });
				}
				break;
			}
			case 2: {
				const auto v = freshVec(newSize());
				if (op("construction from a range", [&] { made.emplace(v.begin(), v.end()); })) {
					take(v);
				}
				break;
			}
			case 3: {
				const auto v = freshVec(newSize());
				if (op("construction from a pointer", [&] { made.emplace(v.size(), v.data()); })) {
					take(v);
				}
				break;
			}
			case 4:
				if (op("copy construction", [&] { made.emplace(b); })) {
					take(mb);
				}
				break;
			case 5: {
				if (i == j) {
					break;
				}
				std::vector<T> want = mb;
				if (op("move construction", [&] { made.emplace(std::move(*sig[j])); })) {
					take(want);
					heap::Scope scope;
					sig[j]->clear(); // a moved-from signal can be reused
					sigM[j].clear();
				}
				break;
			}
			case 6:
				trace("signal %u = signal %u (%zu)", i, j, mb.size());
				if (op("copy assignment", [&] {
						S& r = (a = b);
						if (&r != &a) {
							fail("assignment-result", "copy assignment does not return the object");
						}
					})) {
					auto c = mb;
					m = c;
				}
				break;
			case 7: {
				if (i == j) {
					break;
				}
				std::vector<T> want = mb;
				if (op("move assignment", [&] { a = std::move(*sig[j]); })) {
					m = want;
					heap::Scope scope;
					*sig[j] = S{};
					sigM[j].clear();
				}
				break;
			}
			case 8:
				if (op("swap", [&] { std::swap(a, *sig[j]); })) {
					std::swap(m, sigM[j]);
				}
				break;
			case 9: {
				const T v = fresh();
				if (op("push_back", [&] { a.push_back(v); })) {
					m.push_back(v);
				}
				break;
			}
			case 10: {
				if (m.empty()) {
					break;
				}
				const size_t k = draw(m.size(), "op.at");
				trace("signal %u push_back(own element %zu of %zu)", i, k, m.size());
				if (op("push_back of its own element", [&] { a.push_back(a[k]); })) {
					const T v = m[k];
					m.push_back(v);
				}
				break;
			}
			case 11:
			case 12:
				if (i == j || m.size() + mb.size() > 20000) {
					break;
				}
				trace("signal %u (%zu) %s signal %u (%zu)", i, m.size(), which == 11 ? "append" : "prepend", j, mb.size());
				if (which == 11 ? op("append", [&] { a.append(b); }) : op("prepend", [&] { a.prepend(b); })) {
					m.insert(which == 11 ? m.end() : m.begin(), mb.begin(), mb.end());
				}
				break;
			case 13:
			case 14: {
				if (i == j || m.size() + mb.size() > 20000) {
					break;
				}
				const size_t k = draw(m.size() + 1, "op.at");
				trace("signal %u (%zu) insert at %zu signal %u (%zu)", i, m.size(), k, j, mb.size());
				if (which == 13 ? op("insert at an index", [&] { a.insert(k, b); }) : op("insert at an iterator", [&] { a.insert(a.cbegin() + ptrdiff_t(k), b); })) {
					m.insert(m.begin() + ptrdiff_t(k), mb.begin(), mb.end());
				}
				break;
			}
			case 15:
			case 16: {
				if (m.size() > 20000) {
					break;
				}
				const size_t k = draw(m.size() + 1, "op.at");
				const auto v = freshVec(newSize());
				const std::list<T> l(v.begin(), v.end());
				if (which == 15 ? op("insert of a range", [&] { a.insert(a.cbegin() + ptrdiff_t(k), v.begin(), v.end()); }) : op("insert of a range", [&] { a.insert(a.cbegin() + ptrdiff_t(k), l.begin(), l.end()); })) {
					m.insert(m.begin() + ptrdiff_t(k), v.begin(), v.end());
				}
				break;
			}
			case 17: {
				if (m.empty()) {
					break;
				}
				const size_t k = draw(m.size(), "op.at");
				trace("signal %u (%zu) erase %zu", i, m.size(), k);
				if (op("erase", [&] { a.erase(a.cbegin() + ptrdiff_t(k)); })) {
					m.erase(m.begin() + ptrdiff_t(k));
				}
				break;
			}
			case 18: {
				const size_t k = draw(m.size() + 1, "op.at");
				const size_t l = k + draw(m.size() - k + 1, "op.to");
				trace("signal %u (%zu) erase [%zu,%zu)", i, m.size(), k, l);
				if (op("erase of a range", [&] { a.erase(a.cbegin() + ptrdiff_t(k), a.cbegin() + ptrdiff_t(l)); })) {
					m.erase(m.begin() + ptrdiff_t(k), m.begin() + ptrdiff_t(l));
				}
				break;
			}
			case 19:
			case 20: {
				const bool front = which == 19;
				const size_t k = draw(m.size() + 1, "op.count");
				trace("signal %u (%zu) %s(%zu)", i, m.size(), front ? "extract_front" : "extract_back", k);
				if (front ? op("extract_front", [&] { made.emplace(a.extract_front(k)); }) : op("extract_back", [&] { made.emplace(a.extract_back(k)); })) {
					std::vector<T> part(front ? m.begin() : m.end() - ptrdiff_t(k), front ? m.begin() + ptrdiff_t(k) : m.end());
					m.erase(front ? m.begin() : m.end() - ptrdiff_t(k), front ? m.begin() + ptrdiff_t(k) : m.end());
					same("after", "the part taken from signal", i, *made, part);
					if (i != j) {
						heap::Scope scope;
						*sig[j] = std::move(*made);
						sigM[j].swap(part);
					}
					heap::Scope scope;
					made.reset();
				}
				break;
			}
			case 21: {
				const size_t n = newSize();
				trace("signal %u (%zu) resize(%zu)", i, m.size(), n);
				if (op("resize", [&] { a.resize(n); })) {
					m.resize(n);
				}
				break;
			}
			case 22: {
				const size_t n = newSize();
				const T v = fresh();
				trace("signal %u (%zu) resize(%zu, value)", i, m.size(), n);
				if (op("resize with a value", [&] { a.resize(n, v); })) {
					m.resize(n, v);
				}
				break;
			}
			case 23: {
				if (m.empty()) {
					break;
				}
				const size_t n = newSize();
				const size_t k = draw(m.size(), "op.at");
				if (op("resize with its own element", [&] { a.resize(n, a[k]); })) {
					const T v = m[k];
					m.resize(n, v);
				}
				break;
			}
			case 24: {
				const size_t n = newSize();
				trace("signal %u (%zu) reserve(%zu)", i, m.size(), n);
				if (op("reserve", [&] { a.reserve(n); })) {
					if (a.capacity() < n) {
						fail("contents", "reserve(%zu) left a capacity of %zu", n, a.capacity());
					}
				}
				break;
			}
			case 25:
				if (draw(3, "op.really") == 2) {
					if (op("clear", [&] { a.clear(); })) {
						m.clear();
					}
				}
				break;
			case 26: {
				// Writes through views and iterators reach the signal and only the signal.
				if (m.empty()) {
					break;
				}
				const size_t k = draw(m.size(), "op.at");
				const T v = fresh();
				switch (draw(5, "op.through")) {
					case 0: a[k] = v; break;
					case 1: AsView(a)[k] = v; break;
					case 2: *(a.begin() + ptrdiff_t(k)) = v; break;
					case 3: *(a.rbegin() + ptrdiff_t(m.size() - 1 - k)) = v; break;
					default: AsView(a).subsignal(k).front() = v; break;
				}
				current = "write";
				m[k] = v;
				break;
			}
			case 27:
				refuse("resize far beyond memory", [&] { a.resize(size_t(1) << 45, fresh()); });
				break;
			case 28:
				refuse("reserve far beyond memory", [&] { a.reserve(size_t(1) << 62); });
				break;
			case 29: {
				const uint32_t u = draw(sigU.size(), "op.slotu");
				std::optional<SU> mu;
				std::vector<U> want;
				for (auto& x : m) {
					want.push_back(convertTo<U>(x));
				}
				const bool assign = draw(2, "op.assign");
				if (assign ? op("converting assignment", [&] { *sigU[u] = a; }) : op("converting construction", [&] { mu.emplace(a); })) {
					heap::Scope scope;
					if (!assign) {
						*sigU[u] = std::move(*mu);
					}
					sigUM[u].swap(want);
				}
				break;
			}
			case 31: {
				// From a source that can be read only once.
				const auto v = freshVec(newSize());
				trace("signal %u from a source of %zu samples", i, v.size());
				if (op("construction from a source read once", [&] {
						Source<T> s{ v.data(), v.size() };
						made.emplace(Once<T>{ &s, 0 }, Once<T>{ &s, v.size() });
					})) {
					take(v);
				}
				break;
			}
			case 32: {
				if (m.size() > 20000) {
					break;
				}
				// A source read once cannot be put back, so no memory fails here.
				const size_t k = draw(m.size() + 1, "op.at");
				const auto v = freshVec(newSize());
				current = "insert from a source read once";
				trace("signal %u insert %zu samples of a source at %zu", i, v.size(), k);
				{
					heap::Scope scope;
					Source<T> s{ v.data(), v.size() };
					a.insert(a.cbegin() + ptrdiff_t(k), Once<T>{ &s, 0 }, Once<T>{ &s, v.size() });
				}
				m.insert(m.begin() + ptrdiff_t(k), v.begin(), v.end());
				break;
			}
			case 33: {
				// The source fails on the way: its error comes out, and nothing remains.
				const auto v = freshVec(1 + newSize());
				const size_t k = draw(v.size(), "op.at");
				const bool random = draw(2, "op.category");
				current = "construction from a failing source";
				trace("signal %u from a source of %zu samples failing at %zu", i, v.size(), k);
				bool thrown = false;
				const auto live = heap::liveBlocks();
				{
					heap::Scope scope;
					Source<T> s{ v.data(), v.size(), k };
					try {
						if (random) {
							S lost(Many<T>{ &s, 0 }, Many<T>{ &s, ptrdiff_t(v.size()) });
						}
						else {
							S lost(Once<T>{ &s, 0 }, Once<T>{ &s, v.size() });
						}
					}
					catch (const SourceFailed&) {
						thrown = true;
					}
				}
				if (!thrown) {
					fail("accepted", "construction from a source that fails at sample %zu of %zu reported success", k, v.size());
				}
				if (heap::liveBlocks() != live) {
					fail("leak", "construction from a failing source leaves memory allocated");
				}
				count("fault.source_failed");
				break;
			}
			default: {
				const uint32_t u = draw(sigU.size(), "op.slotu");
				std::vector<T> want;
				for (auto& x : sigUM[u]) {
					want.push_back(convertTo<T>(x));
				}
				if (draw(2, "op.assign")) {
					if (op("converting assignment", [&] { a = *sigU[u]; })) {
						m = want;
					}
				}
				else if (op("converting construction", [&] { made.emplace(*sigU[u]); })) {
					take(want);
				}
			}
		}
	}

	void rootOp() {
		const uint32_t i = draw(fac.size(), "op.slot");
		const uint32_t j = draw(fac.size(), "op.slot2");
		P& a = *fac[i];
		auto& m = facM[i];
		const uint32_t which = draw(12, "op.kind");
		signature = mix(signature, mix(100 + which, i * 8 + j));
		std::optional<P> made;
		auto take = [&](Roots want) {
			heap::Scope scope;
			fac[i] = std::make_unique<P>(std::move(*made));
			made.reset();
			m = std::move(want);
		};
		switch (which) {
			case 0:
			case 1: {
				const size_t nr = drawSize(0, 30, "op.real"), nc = drawSize(0, 20, "op.pairs");
				Roots want;
				std::vector<C> roots;
				for (size_t k = 0; k < nr; ++k) {
					want.real.push_back(freshReal());
					roots.push_back(want.real.back());
				}
				for (size_t k = 0; k < nc; ++k) {
					const C c = freshPair();
					roots.push_back(c);
					roots.push_back(std::conj(c));
				}
				Rng r(draw(1 << 16, "op.shuffle"));
				if (which == 0) {
					for (size_t k = roots.size(); k > 1; --k) {
						std::swap(roots[k - 1], roots[r.below(k)]);
					}
				}
				want = {};
				for (auto& c : roots) {
					if (c.imag() == R(0)) {
						want.real.push_back(c.real());
					}
					else if (c.imag() > R(0)) {
						want.pairs.push_back(c);
					}
				}
				if (nc && draw(8, "op.broken") == 7) {
					// A root without its conjugate is refused.
					for (size_t k = 0; k < roots.size(); ++k) {
						if (roots[k].imag() < 0) {
							roots.erase(roots.begin() + ptrdiff_t(k));
							break;
						}
					}
					refuse("construction from unpaired roots", [&] { made.emplace(roots.begin(), roots.end()); });
					break;
				}
				trace("root set %u from %zu real roots and %zu pairs", i, nr, nc);
				if (op("construction from roots", [&] { made.emplace(roots.begin(), roots.end()); })) {
					take(want);
				}
				break;
			}
			case 2:
			case 3:
			case 4: {
				const size_t nr = drawSize(0, 30, "op.real"), nc = drawSize(0, 20, "op.pairs");
				const bool dflt = draw(2, "op.default");
				const R rv = dflt ? R(0) : freshReal();
				const C cv = dflt ? C(0) : freshPair();
				trace("root set %u (%zu real, %zu pairs) resize(%zu, %zu)", i, m.real.size(), m.pairs.size(), nr, nc);
				if (op("root set resize", [&] {
						if (dflt) {
							a.resize(nr, nc);
						}
						else {
							a.resize(nr, nc, rv, cv);
						}
					})) {
					m.real.resize(nr, rv);
					m.pairs.resize(nc, cv);
				}
				break;
			}
			case 5:
			case 6: {
				const size_t total = m.real.size() + 2 * m.pairs.size();
				const size_t nr = draw(total + 4, "op.real");
				const R rv = freshReal();
				const C cv = freshPair();
				if (nr > total || nr % 2 != total % 2) {
					refuse("regroup to an impossible number of real roots", [&] { a.regroup(nr, rv, cv); });
					break;
				}
				trace("root set %u (%zu real, %zu pairs) regroup(%zu)", i, m.real.size(), m.pairs.size(), nr);
				if (op("regroup", [&] { a.regroup(nr, rv, cv); })) {
					m.real.resize(nr, rv);
					m.pairs.resize((total - nr) / 2, cv);
				}
				break;
			}
			case 7: {
				auto want = facM[j];
				if (draw(2, "op.construct")) {
					if (op("root set copy construction", [&] { made.emplace(*fac[j]); })) {
						take(want);
					}
				}
				else if (op("root set copy assignment", [&] { a = *fac[j]; })) {
					m = want;
				}
				break;
			}
			case 8: {
				if (i == j) {
					break;
				}
				auto want = facM[j];
				if (draw(2, "op.construct")) {
					if (op("root set move construction", [&] { made.emplace(std::move(*fac[j])); })) {
						take(want);
					}
					else {
						break;
					}
				}
				else if (op("root set move assignment", [&] { a = std::move(*fac[j]); })) {
					m = want;
				}
				else {
					break;
				}
				heap::Scope scope;
				fac[j]->resize(0, 0);
				facM[j] = {};
				break;
			}
			case 9:
				if (op("root set swap", [&] { std::swap(a, *fac[j]); })) {
					std::swap(m, facM[j]);
				}
				break;
			case 10:
				refuse("root set resize far beyond memory", [&] { a.resize(size_t(1) << 45, draw(2, "op.also")); });
				break;
			default: {
				current = "root set write";
				if (!m.real.empty()) {
					const size_t k = draw(m.real.size(), "op.at");
					a.real_roots()[k] = m.real[k] = freshReal();
				}
				if (!m.pairs.empty()) {
					const size_t k = draw(m.pairs.size(), "op.at");
					a.complex_pairs()[k] = m.pairs[k] = freshPair();
				}
			}
		}
	}

	void polyOp() {
		const uint32_t i = draw(pol.size(), "op.slot");
		const uint32_t j = draw(pol.size(), "op.slot2");
		Q& a = *pol[i];
		auto& m = polM[i];
		const uint32_t which = draw(6, "op.kind");
		signature = mix(signature, mix(200 + which, i * 8 + j));
		switch (which) {
			case 0: {
				std::vector<R> v(drawSize(0, 40, "op.size"));
				for (auto& x : v) {
					x = freshReal();
				}
				std::optional<Q> made;
				if (op("polynomial construction", [&] { made.emplace(v.begin(), v.end()); })) {
					heap::Scope scope;
					a = std::move(*made);
					m.swap(v);
				}
				break;
			}
			case 1:
			case 2: {
				const size_t n = drawSize(0, 40, "op.size");
				const R v = freshReal();
				if (op("polynomial resize", [&] { a.resize(n, v); })) {
					m.resize(n, v);
				}
				break;
			}
			case 3:
				if (op("polynomial copy assignment", [&] { a = *pol[j]; })) {
					auto c = polM[j];
					m = c;
				}
				break;
			case 4:
				if (op("polynomial swap", [&] { std::swap(a, *pol[j]); })) {
					std::swap(m, polM[j]);
				}
				break;
			default:
				current = "polynomial write";
				if (!m.empty()) {
					const size_t k = draw(m.size(), "op.at");
					a.coefficients()[k] = m[k] = freshReal();
				}
		}
	}

	void run() {
		heap::configure(drawHeap("heap"));
		const uint32_t n = 1 + draw(4, "signals");
		const uint32_t nu = 1 + draw(2, "signals.other");
		const uint32_t nf = 1 + draw(3, "rootsets");
		const uint32_t np = 1 + draw(2, "polynomials");
		big = draw(10, "big") == 9;
		pFault = draw(4, "mix.fault");
		const uint32_t mixSignals = draw(4, "mix.signals"); // which kinds of objects get most of the operations
		{
			heap::Scope scope;
			for (uint32_t i = 0; i < n; ++i) {
				sig.push_back(std::make_unique<S>());
			}
			for (uint32_t i = 0; i < nu; ++i) {
				sigU.push_back(std::make_unique<SU>());
			}
			for (uint32_t i = 0; i < nf; ++i) {
				fac.push_back(std::make_unique<P>());
			}
			for (uint32_t i = 0; i < np; ++i) {
				pol.push_back(std::make_unique<Q>());
			}
		}
		sigM.resize(n);
		sigUM.resize(nu);
		facM.resize(nf);
		polM.resize(np);
		const uint32_t steps = 10 + draw(big ? 40 : 110, "steps");
		for (uint32_t s = 0; s < steps; ++s) {
			const uint32_t k = draw(10, "op.family");
			if (k == 0) {
				polyOp();
			}
			else if (mixSignals == 3 || k < 4 + 2 * (mixSignals == 0)) {
				mixSignals == 3 && k >= 7 ? rootOp() : signalOp();
			}
			else {
				rootOp();
			}
			++ops;
			checkAll("after");
			heap::checkIntegrity(current);
			for (auto& m : sigM) {
				evBytes(m.data(), m.size() * sizeof(T));
			}
			ev(heap::liveBlocks());
		}
		uint64_t total = 0;
		for (auto& m : sigM) {
			total += m.size();
		}
		{
			heap::Scope scope;
			std::vector<std::unique_ptr<S>>{}.swap(sig);
			std::vector<std::unique_ptr<SU>>{}.swap(sigU);
			std::vector<std::unique_ptr<P>>{}.swap(fac);
			std::vector<std::unique_ptr<Q>>{}.swap(pol);
		}
		if (heap::liveBlocks() != 0) {
			fail("leak", "%llu blocks (%llu bytes) remain allocated after every object was destroyed", (unsigned long long)heap::liveBlocks(), (unsigned long long)heap::liveBytes());
		}
		if (ops > 3) {
			nontrivial(signature);
		}
		distinct("final_shapes", mix(total, mix(facM[0].real.size(), facM[0].pairs.size())));
		summary("%s: %u signals, %u root sets, %u polynomials, %u operations, %u failed allocations (%u retried), %u refused requests, %llu samples held at the end", typeName<T>(), n, nf, np, ops, faults, retries, refused, (unsigned long long)total);
	}
};

} // namespace

#define DECLARE(n) void part##n();
DECLARE(1) DECLARE(2) DECLARE(3) DECLARE(4)
#if PART == 0
static void run(int) {
	switch (draw(4, "types")) {
		case 0: return part1();
		case 1: return part2();
		case 2: return part3();
		default: return part4();
	}
}
const Workload sim::workload{ "C07", 1, run };
#elif PART == 1
void part1() { Run<float, TIME_DOMAIN>().run(); }
#elif PART == 2
void part2() { Run<double, FREQUENCY_DOMAIN>().run(); }
#elif PART == 3
void part3() { Run<std::complex<float>, QUEFRENCY_DOMAIN>().run(); }
#elif PART == 4
void part4() { Run<std::complex<double>, DOMAINLESS>().run(); }
#endif
