// How library objects are written into results.
#pragma once
#include "ops.hpp"

#include <dspbb/LTISystems/Systems.hpp>
#include <dspbb/Math/Polynomials.hpp>
#include <dspbb/Math/Rational.hpp>
#include <dspbb/Utility/Interval.hpp>

namespace ops {

template <class T> void serialise(Sink& s, const Polynomial<T>& p) { s(p.coefficients()); }
template <class T> void serialise(Sink& s, const FactoredPolynomial<T>& p) {
	s(p.real_roots());
	s(p.complex_pairs());
}
template <class T, eDiscretization D> void serialise(Sink& s, const ZeroPoleGain<T, D>& z) {
	s(z.gain);
	s(z.zeros);
	s(z.poles);
}
template <class T, eDiscretization D> void serialise(Sink& s, const TransferFunction<T, D>& t) {
	s(t.numerator);
	s(t.denominator);
}
template <class T> void serialise(Sink& s, const CascadedBiquad<T>& c) {
	s((unsigned long)c.sections.size());
	for (auto& x : c.sections) {
		s(x.numerator);
		s(x.denominator);
		s(int(x.numOrder));
		s(int(x.denOrder));
	}
}
template <class T> void serialise(Sink& s, const Rational<T>& r) {
	s((long long)r.Numerator());
	s((long long)r.Denominator());
}
template <class T> void serialise(Sink& s, const Interval<T>& i) {
	s(i.first);
	s(i.last);
}

// A random root set with n roots inside a disc, optionally shifted into the left half plane.
template <class T> std::vector<std::complex<T>> genRoots(Rng& r, size_t n, double radius, double shift = 0) {
	std::vector<std::complex<T>> v;
	while (v.size() < n) {
		if (n - v.size() >= 2 && r.chance(2, 3)) {
			const T re = T(radius * 0.7 * r.sym() + shift), im = T(radius * 0.7 * (0.05 + 0.95 * r.unit()));
			v.push_back({ re, im });
			v.push_back({ re, -im });
		}
		else {
			v.push_back({ T(radius * r.sym() + shift), T(0) });
		}
	}
	return v;
}

} // namespace ops
