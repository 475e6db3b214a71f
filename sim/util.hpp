// Shared by workloads: data generation, reference arithmetic, heap configuration drawn per run.
#pragma once
#include "core.hpp"
#include "guard.hpp"
#include "heap.hpp"

#include <cmath>
#include <complex>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

namespace sim {

using ld = long double;
using cld = std::complex<long double>;

template <class T> struct RealOf { using type = T; static constexpr bool complex = false; };
template <class T> struct RealOf<std::complex<T>> { using type = T; static constexpr bool complex = true; };
template <class T> using RealT = typename RealOf<T>::type;
template <class T> constexpr bool isComplex = RealOf<T>::complex;

template <class T> cld toLd(const T& v) {
	if constexpr (isComplex<T>) {
		return cld(ld(v.real()), ld(v.imag()));
	}
	else {
		return cld(ld(v), 0);
	}
}
template <class T> ld mag(const T& v) { return std::abs(toLd(v)); }
template <class T> bool finite(const T& v) {
	if constexpr (isComplex<T>) {
		return std::isfinite(v.real()) && std::isfinite(v.imag());
	}
	else {
		return std::isfinite(v);
	}
}
template <class T> std::string show(const T& v) {
	char b[96];
	if constexpr (isComplex<T>) {
		snprintf(b, sizeof b, "(%.9g,%.9g)", double(v.real()), double(v.imag()));
	}
	else {
		snprintf(b, sizeof b, "%.9g", double(v));
	}
	return b;
}
inline std::string showLd(const cld& v) { return show(std::complex<double>(double(v.real()), double(v.imag()))); }

template <class T> const char* typeName() {
	if constexpr (std::is_same_v<T, float>) return "float";
	else if constexpr (std::is_same_v<T, double>) return "double";
	else if constexpr (std::is_same_v<T, std::complex<float>>) return "complex<float>";
	else return "complex<double>";
}

enum DataKind { DATA_INT, DATA_UNIFORM, DATA_DYNAMIC, DATA_SPARSE, DATA_ONES, DATA_FAINT, DATA_KINDS };

template <class R> R genReal(Rng& r, int kind) {
	switch (kind) {
		case DATA_INT: return R(int(r.below(17)) - 8);
		case DATA_UNIFORM: return R(r.sym());
		case DATA_DYNAMIC: return R(std::ldexp(r.sym(), int(r.below(21)) - 10));
		case DATA_SPARSE: return r.below(9) == 0 ? R(int(r.below(9)) - 4) : R(0);
		case DATA_FAINT: return R(std::ldexp(r.sym(), sizeof(R) == 4 ? -40 : -60)); // far below every threshold, but a signal
		default: return R(1);
	}
}
template <class T> T genValue(Rng& r, int kind) {
	if constexpr (isComplex<T>) {
		const auto a = genReal<RealT<T>>(r, kind);
		const auto b = genReal<RealT<T>>(r, kind);
		return T(a, b);
	}
	else {
		return genReal<T>(r, kind);
	}
}
template <class T> void genInto(T* p, size_t n, uint64_t seed, int kind) {
	Rng r(seed);
	for (size_t i = 0; i < n; ++i) {
		p[i] = genValue<T>(r, kind);
	}
}
template <class T> std::vector<T> gen(size_t n, uint64_t seed, int kind) {
	std::vector<T> v(n);
	genInto(v.data(), n, seed, kind);
	return v;
}
template <class T> Buf<T> bufOf(const std::vector<T>& v, bool atStart = false, bool ro = true) {
	Buf<T> b(v.size(), atStart);
	std::copy(v.begin(), v.end(), b.begin());
	if (ro) {
		b.readOnly();
	}
	return b;
}
// Output buffers start poisoned: whatever the library does not write is noticed.
template <class T> void poison(T* p, size_t n, unsigned how) {
	switch (how % 3) {
		case 0: memset(static_cast<void*>(p), 0xFF, n * sizeof(T)); break; // NaN
		case 1:
			for (size_t i = 0; i < n; ++i) {
				p[i] = T(RealT<T>(77777));
			}
			break;
		default: {
			Rng r(n + how);
			for (size_t i = 0; i < n; ++i) {
				p[i] = T(RealT<T>(1e5 * r.sym()));
			}
		}
	}
}

template <class T> ld maxAbs(const std::vector<T>& v) {
	ld m = 0;
	for (auto& x : v) {
		m = std::max(m, mag(x));
	}
	return m;
}

inline heap::Config drawHeap(const char* label) {
	heap::Config c;
	c.fill = heap::Fill(draw(4, label));
	c.reuse = heap::Reuse(draw(2, label));
	c.fillSeed = draw(1 << 20, label);
	c.skew = draw(4, label) == 3 ? draw(3, label) : 0;
	c.off16 = draw(4, label);
	return c;
}

// Full convolution in extended precision together with the sum of magnitudes.
template <class T, class U> void refConv(const std::vector<T>& x, const std::vector<U>& h, std::vector<cld>& y, std::vector<ld>& a) {
	const size_t n = x.empty() || h.empty() ? 0 : x.size() + h.size() - 1;
	y.assign(n, cld(0));
	a.assign(n, ld(0));
	if constexpr (!isComplex<T> && !isComplex<U>) {
		std::vector<ld> yr(n, 0);
		for (size_t i = 0; i < x.size(); ++i) {
			const ld v = ld(x[i]);
			if (v == 0) {
				continue;
			}
			for (size_t k = 0; k < h.size(); ++k) {
				const ld p = v * ld(h[k]);
				yr[i + k] += p;
				a[i + k] += std::fabs(p);
			}
		}
		for (size_t i = 0; i < n; ++i) {
			y[i] = yr[i];
		}
	}
	else {
		std::vector<ld> hm(h.size());
		for (size_t k = 0; k < h.size(); ++k) {
			hm[k] = mag(h[k]);
		}
		for (size_t i = 0; i < x.size(); ++i) {
			const cld v = toLd(x[i]);
			const ld vm = std::abs(v);
			if (vm == 0) {
				continue;
			}
			for (size_t k = 0; k < h.size(); ++k) {
				const cld w = toLd(h[k]);
				y[i + k] += cld(v.real() * w.real() - v.imag() * w.imag(), v.real() * w.imag() + v.imag() * w.real());
				a[i + k] += vm * hm[k];
			}
		}
	}
}

// Rounding allowance for computing one output of a convolution of maxima X, H either directly or through FFTs.
template <class R> ld convTol(ld absSum, size_t filterLen, size_t streamLen, size_t chunk, ld X, ld H) {
	const ld eps = std::numeric_limits<R>::epsilon();
	const ld N = ld(std::max<size_t>(chunk, std::min<size_t>(streamLen + filterLen, 16 * filterLen + 64)));
	const ld F = ld(std::max<size_t>(1, filterLen));
	return eps * (4 * (std::min<ld>(F, 64) + 4) * absSum + 16 * (std::log2(N) + 2) * std::sqrt(N * F) * X * H) + std::numeric_limits<R>::min() * 64;
}

} // namespace sim
