// The catalogue of library operations: seeded instances of every public operation, each with read-only inputs in
// guarded memory, outputs in poisoned guarded memory, and a result that is serialised element by element so that
// it can be compared bit for bit. An instance may be executed any number of times, also by several threads at once.
#pragma once
#include "../sim/core.hpp"
#include "../sim/guard.hpp"
#include "../sim/heap.hpp"
#include "../sim/util.hpp"

#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

#include <array>
#include <complex>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace ops {

using namespace sim;
using namespace dspbb;

// ---- results ---------------------------------------------------------------------------------
struct Sink {
	std::vector<unsigned char> bytes;
	void raw(const void* p, size_t n) {
		const auto* b = static_cast<const unsigned char*>(p);
		bytes.insert(bytes.end(), b, b + n);
	}
	void operator()(bool v) { raw(&v, 1); }
	void operator()(int v) { raw(&v, sizeof v); }
	void operator()(unsigned v) { raw(&v, sizeof v); }
	void operator()(long v) { raw(&v, sizeof v); }
	void operator()(unsigned long v) { raw(&v, sizeof v); }
	void operator()(long long v) { raw(&v, sizeof v); }
	// The payload and sign of a NaN carry no meaning.
	void operator()(float v) {
		if (v != v) {
			v = std::numeric_limits<float>::quiet_NaN();
		}
		raw(&v, sizeof v);
	}
	void operator()(double v) {
		if (v != v) {
			v = std::numeric_limits<double>::quiet_NaN();
		}
		raw(&v, sizeof v);
	}
	template <class T> void operator()(const std::complex<T>& v) {
		(*this)(v.real());
		(*this)(v.imag());
	}
	template <class A, class B> void operator()(const std::pair<A, B>& v) {
		(*this)(v.first);
		(*this)(v.second);
	}
	template <class... Ts> void operator()(const std::tuple<Ts...>& v) {
		std::apply([this](const auto&... x) { ((*this)(x), ...); }, v);
	}
	template <class T, size_t N> void operator()(const std::array<T, N>& v) {
		for (auto& x : v) {
			(*this)(x);
		}
	}
	template <class T> void operator()(const std::optional<T>& v) {
		(*this)(v.has_value());
		if (v) {
			(*this)(*v);
		}
	}
	template <class It> void seq(It first, It last) {
		(*this)((unsigned long)(last - first));
		for (; first != last; ++first) {
			(*this)(*first);
		}
	}
	template <class T> void operator()(const std::vector<T>& v) { seq(v.begin(), v.end()); }
	template <class T, eSignalDomain D> void operator()(const BasicSignal<T, D>& v) { seq(v.begin(), v.end()); }
	template <class T, eSignalDomain D> void operator()(const BasicSignalView<T, D>& v) { seq(v.begin(), v.end()); }
	template <class T> auto operator()(const T& v) -> decltype(serialise(*this, v)) { serialise(*this, v); }
};

// ---- inputs -----------------------------------------------------------------------------------
template <class T> struct In {
	const T* p = nullptr;
	size_t n = 0;
	SignalView<const T> view() const { return { p, n }; }
	SpectrumView<const T> spec() const { return { p, n }; }
	template <eSignalDomain D> BasicSignalView<const T, D> as() const { return { p, n }; }
	size_t size() const { return n; }
	const T& operator[](size_t i) const { return p[i]; }
	const T* begin() const { return p; }
	const T* end() const { return p + n; }
};

template <class T> struct tag { using type = T; };

// Objects the harness keeps for the library must be visible to the leak search: it scans globals.
void root(const void* p);

using InputCheck = std::function<void(Sink&)>;

// Overlay: instances of a run take turns in the same memory. The k-th input of each lies at the same address, and the
// k-th library object in the same place, as when a caller refills a buffer or rebuilds a filter between two calls.
namespace overlay {
	constexpr size_t SLOT = 32 * 1024, SLOTS = 24, OBJ = 1024;
	void* input(size_t k, size_t bytes); // null if there is no such slot
	void* object(size_t k, size_t bytes);
	void protect(bool readOnly);
} // namespace overlay
struct Turn {
	std::vector<std::pair<unsigned char*, std::vector<unsigned char>>> inputs;
	std::vector<std::function<void()>> enter, leave;
};

class Ex;
using Exec = std::function<void(Ex&)>;

// Source of the parameters of one instance. The k-th parameter depends only on (seed, k), except that one of them can
// be replaced: instances that differ in a single parameter are what an imprecise cache confuses.
class Mk {
public:
	Mk(uint64_t seed, int tweakAt, uint64_t tweak, unsigned scale, uint64_t place, Turn* turn = nullptr)
		: m_seed(seed), m_tweakAt(tweakAt), m_tweak(tweak), m_scale(scale), m_turn(turn), m_place(place) {}

	uint64_t next() {
		const bool t = m_k == m_tweakAt;
		const uint64_t r = mix(t ? mix(m_tweak, 77) : m_seed, uint64_t(m_k));
		++m_k;
		return r;
	}
	uint64_t below(uint64_t n) { return n <= 1 ? (next(), 0) : next() % n; }
	long range(long lo, long hi) { return lo + long(below(uint64_t(hi - lo + 1))); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	double real(double lo, double hi) {
		m_kinds[1].push_back(m_k);
		const bool nudge = m_k == m_tweakAt && m_tweak % 2;
		if (nudge) {
			const double v = lo + (hi - lo) * unitOf(mix(m_seed, uint64_t(m_k)));
			++m_k;
			const double w = v + (hi - lo) * std::ldexp(1.0, -int(m_tweak / 2 % 20));
			return w <= hi ? w : v - (v - lo) * 0.5;
		}
		return lo + (hi - lo) * unitOf(next());
	}
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
	// A size in [lo, cap], mostly small, often next to a multiple of a vector width.
	size_t len(size_t lo = 0, size_t cap = ~size_t(0)) {
		static const size_t limit[4] = { 8, 40, 200, 1500 };
		const size_t hi = std::max(lo, std::min(cap, limit[m_scale]));
		m_kinds[2].push_back(m_k);
		const bool jump = m_k == m_tweakAt && m_tweak % 2;
		const uint64_t v = jump ? mix(m_seed, uint64_t(m_k++)) : next();
		size_t n = lo + (v >> 8) % (hi - lo + 1);
		switch (v % 8) {
			case 0: n = n / 8 * 8; break;
			case 1: n = n / 4 * 4 + 1; break;
			case 2: n = (n / 8 + 1) * 8 - 1; break;
			case 3: n = lo + (v >> 40) % 4; break;
			case 4: n = hi - (v >> 40) % 3; break;
			default: break;
		}
		n = std::min(std::max(n, lo), hi);
		if (jump) {
			static const size_t d[] = { 1, 2, 4, 8, 16, 32, 64, 128, 256 };
			const size_t w = n + d[m_tweak / 2 % 9];
			n = w <= std::max(cap == ~size_t(0) ? size_t(1500) : cap, lo) ? w : std::max(lo, n ? n - 1 : n);
		}
		return n;
	}
	unsigned scale() const { return m_scale; }
	int drawn() const { return m_k; } // parameters so far
	// Which parameter a tweak drawn as `at` changes: any, one that is a real number, a length, or the data of an input.
	int tweaked(uint32_t at) const {
		const auto& l = m_kinds[at / 64 % 4];
		return at / 64 % 4 == 0 || l.empty() ? int(at % 64) % std::max(1, m_k) : l[at % 64 % l.size()];
	}

	// Read-only memory of the caller.
	template <class T> In<T> in(size_t n, int kind = -1) {
		m_kinds[3].push_back(m_k);
		const bool touch = m_k == m_tweakAt && m_tweak % 2;
		const uint64_t s = touch ? mix(m_seed, uint64_t(m_k++)) : next();
		std::vector<T> v(n);
		genInto(v.data(), n, s, kind >= 0 ? kind : int((s >> 20) % 3));
		if (touch && n) {
			// The same data but for one or two elements.
			const size_t i = m_tweak / 8 % 4 == 0 ? 0 : m_tweak / 8 % 4 == 1 ? n - 1 : mix(m_tweak, 5) % n;
			const size_t j = mix(m_tweak, 6) % n;
			switch (m_tweak / 2 % 4) {
				case 0: std::swap(v[i], v[j]); break;
				case 1: v[i] = v[j]; break;
				case 2: v[i] = T(0) - v[i]; break;
				default: v[i] = v[i] + v[i] / T(8); break;
			}
		}
		return put(v);
	}
	template <class T, class F> In<T> inBy(size_t n, F f) {
		Rng r(next());
		std::vector<T> v(n);
		for (size_t i = 0; i < n; ++i) {
			v[i] = f(r, i);
		}
		return put(v);
	}
	template <class T> In<T> put(const std::vector<T>& v) {
		if (m_turn) {
			if (void* p = overlay::input(m_turn->inputs.size(), v.size() * sizeof(T))) {
				const auto* b = reinterpret_cast<const unsigned char*>(v.data());
				m_turn->inputs.push_back({ static_cast<unsigned char*>(p), std::vector<unsigned char>(b, b + v.size() * sizeof(T)) });
				std::copy(v.begin(), v.end(), static_cast<T*>(p));
				return { static_cast<const T*>(p), v.size() };
			}
		}
		const Placed b = placeAlloc(v.size() * sizeof(T), alignof(T), unsigned(m_place.below(3)), unsigned(m_place.below(64)), unsigned(m_place.below(4)));
		std::copy(v.begin(), v.end(), reinterpret_cast<T*>(b.p));
		placeReadOnly(b);
		return { reinterpret_cast<const T*>(b.p), v.size() };
	}

	// A library object the operation gets by const reference. f runs as library code.
	template <class F> auto obj(F f) {
		using R = std::decay_t<decltype(f())>;
		R* p;
		{
			heap::Scope s;
			p = new R(f());
		}
		root(p);
		if constexpr (std::is_copy_constructible_v<R>) {
			if (void* slot = m_turn ? overlay::object(m_turn->enter.size(), sizeof(R)) : nullptr) {
				const R* original = p;
				m_turn->enter.push_back([original, slot] {
					heap::Scope s;
					new (slot) R(*original);
				});
				m_turn->leave.push_back([slot] {
					heap::Scope s;
					static_cast<R*>(slot)->~R();
				});
				m_turn->enter.back()();
				p = static_cast<R*>(slot);
			}
		}
		m_checks.push_back([p](Sink& s) { s(*p); });
		return static_cast<const R*>(p);
	}
	std::vector<InputCheck>& checks() { return m_checks; }

	template <class... Ts, class F> Exec types(F f) {
		const uint64_t k = below(sizeof...(Ts));
		Exec e;
		uint64_t i = 0;
		((i++ == k ? void(e = f(tag<Ts>{})) : void()), ...);
		return e;
	}

private:
	static double unitOf(uint64_t v) { return double(v >> 11) * (1.0 / 9007199254740992.0); }
	uint64_t m_seed;
	int m_tweakAt;
	uint64_t m_tweak;
	unsigned m_scale;
	Turn* m_turn;
	int m_k = 0;
	std::vector<int> m_kinds[4];
	Rng m_place;
	std::vector<InputCheck> m_checks;
};

// ---- execution ----------------------------------------------------------------------------------
// Output memory: poisoned, guarded, and with margins that must come back untouched.
template <class T> class Out {
public:
	Out(Placed b, size_t n) : m_b(b), m_n(n) {}
	Out(const Out&) = delete;
	~Out() { placeFree(m_b); }
	T* data() const { return reinterpret_cast<T*>(m_b.p); }
	size_t size() const { return m_n; }
	T* begin() const { return data(); }
	T* end() const { return data() + m_n; }
	T& operator[](size_t i) const { return data()[i]; }
	SignalView<T> view() const { return { data(), m_n }; }
	SpectrumView<T> spec() const { return { data(), m_n }; }
	template <eSignalDomain D> BasicSignalView<T, D> as() const { return { data(), m_n }; }
	void check() const { placeCheck(m_b); }

private:
	Placed m_b;
	size_t m_n;
};

class Ex {
public:
	explicit Ex(uint64_t placeSeed, uint64_t mask = ~uint64_t(0)) : m_place(placeSeed), m_mask(mask) {}
	Sink result;

	// One of the calls of an instance that makes several. Some instances make only some of theirs, as a call may hide
	// what an earlier one has left behind.
	template <class F> void call(F&& f) {
		if (m_mask >> (m_calls++ % 64) & 1) {
			put(lib(f));
		}
	}

	// Runs library code.
	template <class F> decltype(auto) lib(F&& f) {
		heap::Scope s;
		return f();
	}
	template <class T> Out<T> out(size_t n) {
		const Placed b = placeAlloc(n * sizeof(T), alignof(T), unsigned(m_place.below(3)), unsigned(m_place.below(64)), unsigned(m_place.below(4)));
		if (n) {
			poison(reinterpret_cast<T*>(b.p), n, unsigned(m_place.below(3)));
		}
		return Out<T>(b, n);
	}
	// An output that starts as a copy of an input, for in-place use.
	template <class T> Out<T> copy(const In<T>& in) {
		const Placed b = placeAlloc(in.n * sizeof(T), alignof(T), unsigned(m_place.below(3)), unsigned(m_place.below(64)), unsigned(m_place.below(4)));
		std::copy(in.begin(), in.end(), reinterpret_cast<T*>(b.p));
		return Out<T>(b, in.n);
	}
	template <class T> void put(const Out<T>& o) {
		o.check();
		result.seq(o.begin(), o.end());
	}
	template <class T> void put(const T& v) { result(v); }
	template <class T, class... Us> void puts(const T& v, const Us&... us) {
		put(v);
		(put(us), ...);
	}

private:
	Rng m_place;
	uint64_t m_mask;
	unsigned m_calls = 0;
};

// ---- registry -------------------------------------------------------------------------------------
struct Entry {
	const char* name;
	std::function<Exec(Mk&)> make;
	unsigned weight;
};
struct Reg {
	Reg(const char* name, std::function<Exec(Mk&)> make, unsigned weight = 2);
};
const std::vector<Entry>& catalogue(); // sorted by name

// One instance, as the workloads use it.
struct Op {
	const char* name = nullptr;
	uint32_t entry = 0, seed = 0, tweak = 0, scale = 0;
	int tweakAt = -1;
	uint64_t mask = ~uint64_t(0); // which of its calls it makes
	Exec exec;
	std::vector<InputCheck> checks;
	std::vector<unsigned char> inputs; // serialised at creation
	std::shared_ptr<Turn> turn;        // if it shares its memory with others
	size_t solo = 0, soloLen = 0;      // in the board
	uint64_t soloAllocs = 0;
};

struct Spec {
	uint32_t entry, seed, tweak, scale;
	int tweakAt;
};
// Draws which operations a run uses: `n` instances, many of them related.
std::vector<Spec> drawSpecs(uint32_t n, uint32_t maxScale);
// `n` variations of one or two operations.
std::vector<Spec> drawVariations(uint32_t n, uint32_t maxScale);
Op build(const Spec& s, uint64_t place, bool overlaid = false);
// Around each use of an instance: its inputs and objects take their places.
void enter(const Op& op);
void leave(const Op& op);

// Executes and returns the serialised result; exceptions other than bad_alloc are results, too.
std::vector<unsigned char> exec(const Op& op, uint64_t place);
void checkInputs(const Op& op, const char* when); // library objects handed in by const reference are unchanged
// Whether the operation rejected its parameters exactly as it does alone, but for the wording of the message (which may have had no memory).
bool sameRejection(const Op& op, const std::vector<unsigned char>& r);
void compare(const Op& op, const std::vector<unsigned char>& r, const char* cls, const char* when, const char* reference = "alone in a fresh process");
// Phase 0: the instance alone in a process that never called anything else; phase 1 reads what that returned.
void solo(const std::vector<Spec>& specs);
void boardResult(const std::vector<unsigned char>& r, uint64_t allocs);
void readSolo(std::vector<Op>& v);
std::string describe(const Op& op);

} // namespace ops
