// Statistics and inner products.
#include "ops.hpp"

#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/Statistics.hpp>

using namespace ops;

namespace {

using F = float;
using D = double;
using CF = std::complex<float>;
using CD = std::complex<double>;

template <class T> Exec reductions(Mk& mk) {
	const size_t n = mk.len(0);
	const auto a = mk.in<T>(n);
	return [=](Ex& ex) {
		const auto v = a.view();
		ex.call([&] { return Sum(v); });
		ex.call([&] { return Mean(v); });
		ex.call([&] { return SumSquare(v); });
		ex.call([&] { return MeanSquare(v); });
		ex.call([&] { return RootMeanSquare(v); });
		ex.call([&] { return Norm(v); });
		if constexpr (!isComplex<T>) {
			if (n) {
				ex.call([&] { return Max(v); });
				ex.call([&] { return Min(v); });
			}
		}
	};
}

template <class T> Exec moments(Mk& mk) {
	const size_t n = mk.len(4);
	const auto a = mk.in<T>(n);
	const auto b = mk.in<T>(n);
	const size_t k = mk.below(8);
	const T mean = T(mk.real(-1, 1));
	const bool given = mk.chance(1, 2);
	return [=](Ex& ex) {
		const auto v = a.view();
		const auto w = b.view();
		if (given) {
			ex.call([&] { return CentralMoment(v, k, mean); });
			ex.call([&] { return StandardizedMoment(v, k, mean); });
			ex.call([&] { return StandardDeviation(v, mean); });
			ex.call([&] { return Variance(v, mean); });
			ex.call([&] { return Skewness(v, mean); });
			ex.call([&] { return Kurtosis(v, mean); });
			ex.call([&] { return Covariance(v, w, mean, mean); });
		}
		else {
			ex.call([&] { return CentralMoment(v, k); });
			ex.call([&] { return StandardizedMoment(v, k); });
			ex.call([&] { return StandardDeviation(v); });
			ex.call([&] { return Variance(v); });
			ex.call([&] { return Skewness(v); });
			ex.call([&] { return Kurtosis(v); });
			ex.call([&] { return Covariance(v, w); });
		}
		ex.call([&] { return CorrectedStandardDeviation(v); });
		ex.call([&] { return CorrectedVariance(v); });
		ex.call([&] { return CorrectedSkewness(v); });
		ex.call([&] { return CorrectedKurtosis(v); });
		ex.call([&] { return CorrectedCovariance(v, w); });
		ex.call([&] { return Correlation(v, w); });
	};
}

template <class A, class B> Exec dot(Mk& mk) {
	const size_t n = mk.len(0);
	const auto a = mk.in<A>(n);
	const auto b = mk.in<B>(n);
	const auto* own = mk.obj([&] { return Signal<A>(a.begin(), a.end()); });
	return [=](Ex& ex) {
		ex.call([&] { return DotProduct(a.view(), b.view()); });
		ex.call([&] { return DotProduct(*own, b.view()); });
		ex.call([&] { return DotProduct(a.spec(), b.spec()); });
	};
}

template <class A, class B> struct Pair { using a = A; using b = B; };

Reg r1("Sum, Mean, SumSquare, MeanSquare, RootMeanSquare, Norm, Max, Min", [](Mk& mk) { return mk.types<F, D, CF, CD>([&](auto t) { return reductions<typename decltype(t)::type>(mk); }); });
Reg r2("CentralMoment, StandardizedMoment, Variance, Skewness, Kurtosis, Covariance, Correlation", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return moments<typename decltype(t)::type>(mk); }); });
Reg r3("DotProduct", [](Mk& mk) { return mk.types<Pair<F, F>, Pair<D, D>, Pair<CF, CF>, Pair<CD, CD>, Pair<F, CF>, Pair<CF, F>>([&](auto t) { return dot<typename decltype(t)::type::a, typename decltype(t)::type::b>(mk); }); });

} // namespace
