// Polynomials, rational numbers, solvers, root transforms, system representations, elliptic functions.
#include "ops_types.hpp"

#include <dspbb/LTISystems/DiscretizationTransforms.hpp>
#include <dspbb/LTISystems/Systems.hpp>
#include <dspbb/Math/EllipticFunctions.hpp>
#include <dspbb/Math/RootTransforms.hpp>
#include <dspbb/Math/Solvers.hpp>

using namespace ops;

namespace {

using F = float;
using D = double;

template <class T> In<std::complex<T>> roots(Mk& mk, size_t n, double radius, double shift = 0) {
	Rng r(mk.next());
	return mk.put(genRoots<T>(r, n, radius, shift));
}
template <class T> const FactoredPolynomial<T>* factored(Mk& mk, size_t n, double radius, double shift = 0) {
	const auto v = roots<T>(mk, n, radius, shift);
	return mk.obj([&] { return FactoredPolynomial<T>(v.begin(), v.end()); });
}
template <class T, eDiscretization Di> const ZeroPoleGain<T, Di>* system(Mk& mk, bool continuous) {
	const size_t np = 1 + mk.below(mk.scale() ? 12 : 4);
	const size_t nz = mk.below(np + 1);
	const auto z = roots<T>(mk, nz, 1.0, continuous ? -1.5 : 0);
	const auto p = roots<T>(mk, np, 0.9, continuous ? -1.5 : 0);
	const T g = T(mk.real(0.1, 3));
	return mk.obj([&] { return ZeroPoleGain<T, Di>{ g, FactoredPolynomial<T>(z.begin(), z.end()), FactoredPolynomial<T>(p.begin(), p.end()) }; });
}

template <class T> Exec polyEval(Mk& mk) {
	const auto c = mk.in<T>(mk.len(0, 60));
	const auto* p = mk.obj([&] { return Polynomial<T>(c.begin(), c.end()); });
	const T x = T(mk.real(-2, 2));
	const std::complex<T> z(T(mk.real(-1, 1)), T(mk.real(-1, 1)));
	return [=](Ex& ex) {
		ex.call([&] { return (*p)(x); });
		ex.call([&] { return (*p)(z); });
		ex.puts(p->order(), p->size());
		auto q = ex.lib([&] { return Polynomial<T>(c.begin(), c.end()); });
		ex.lib([&] { q.resize(q.size() + 3, x); });
		ex.put(q);
		auto k = ex.lib([&] { return *p; });
		ex.put(k);
	};
}

template <class T> Exec factoredOps(Mk& mk) {
	const size_t n = mk.len(0, 24);
	const auto v = roots<T>(mk, n, 1.2);
	const auto* p = factored<T>(mk, mk.len(0, 24), 1.2);
	const T x = T(mk.real(-2, 2));
	const std::complex<T> z(T(mk.real(-1, 1)), T(mk.real(-1, 1)));
	const size_t nr = mk.below(8), nc = mk.below(6);
	return [=](Ex& ex) {
		ex.call([&] { return (*p)(x); });
		ex.call([&] { return (*p)(z); });
		auto q = ex.lib([&] { return FactoredPolynomial<T>(v.begin(), v.end()); });
		ex.put(q);
		ex.call([&] { return ExpandPolynomial(q); });
		ex.call([&] { return ExpandPolynomial(*p); });
		ex.lib([&] { q.resize(nr, nc, x, z); });
		ex.put(q);
		ex.lib([&] { q.regroup(nr % 2 + 2 * (nc / 2) <= q.num_roots() ? nr % 2 + 2 * (nc / 2) : q.num_roots() % 2, x, z); });
		ex.put(q);
		auto c = ex.lib([&] { return *p; });
		ex.put(c);
	};
}

// Roots without conjugates are rejected.
template <class T> Exec badRoots(Mk& mk) {
	const size_t n = mk.len(1, 20);
	const auto v = mk.in<std::complex<T>>(n, 1);
	return [=](Ex& ex) {
		auto q = ex.lib([&] { return FactoredPolynomial<T>(v.begin(), v.end()); });
		ex.put(q);
	};
}

template <class I> Exec rational(Mk& mk) {
	auto one = [&] { return Rational<I>(I(mk.range(-40, 40)), I(mk.range(1, 40))); };
	const auto a = one(), b = one();
	const I k = I(mk.range(1, 20)) * (mk.chance(1, 2) ? 1 : -1);
	return [=](Ex& ex) {
		ex.puts(a + b, a - b, a * b, a * k, a / k, a + k, a - k, a < b, a == b, a <= b);
		if (b.Numerator() != 0) {
			ex.put(a / b);
		}
		auto c = a;
		c += b;
		c *= k;
		++c;
		c -= a;
		c--;
		ex.put(c);
		ex.put(double(c));
		ex.put(float(c));
	};
}

template <class T> Exec solvers(Mk& mk) {
	const T a = T(mk.real(0.5, 5)), tol = mk.chance(1, 2) ? T(0) : T(1e-4);
	return [=](Ex& ex) {
		auto f = [a](T x) { return x * x - a; };
		auto d = [](T x) { return T(2) * x; };
		ex.call([&] { return Bisect(f, T(0), T(6), tol); });
		ex.call([&] { return NewtonRaphson(f, d, T(3), tol); });
	};
}

template <class T> Exec rootTransforms(Mk& mk) {
	const auto* p = factored<T>(mk, mk.len(0, 24), 1.2);
	const T k = T(mk.real(0.1, 2));
	const size_t pad = mk.below(4);
	return [=](Ex& ex) {
		auto t1 = [k](const auto& r) { return std::array{ std::complex<T>(r) * k }; };
		auto t2 = [k](const auto& r) {
			const std::complex<T> s = std::sqrt(std::complex<T>(std::complex<T>(r) * std::complex<T>(r) * k));
			return std::array{ s, -s };
		};
		const size_t n = p->num_roots();
		ex.call([&] { return TransformRoots(*p, t1, n + pad, std::array{ std::complex<T>(-1) }); });
		ex.call([&] { return TransformRoots<T, 2>(*p, t2, n + pad, std::array{ std::complex<T>(1), std::complex<T>(-1) }); });
		ex.call([&] { return TransformGain(*p, [k](T r) { return k - r; }, [k](std::complex<T> r) { return std::norm(k - r); }); });
	};
}

template <class T> Exec bilinear(Mk& mk) {
	const auto* s = system<T, eDiscretization::CONTINUOUS>(mk, true);
	const auto* d = system<T, eDiscretization::DISCRETE>(mk, false);
	const T rate = T(mk.real(1, 10));
	const T pre = T(mk.real(0.1, 2));
	const int form = int(mk.below(4));
	return [=](Ex& ex) {
		if (form == 3) {
			ex.put(ex.lib([&] { return BilinearTransform(*d, rate); })); // not implemented: reports so
		}
		else if (form == 2) {
			ex.call([&] { return BilinearTransform(*s, rate, std::optional<T>(pre)); });
		}
		else {
			ex.call([&] { return BilinearTransform(*s, rate); });
		}
	};
}

template <class T> Exec systems(Mk& mk) {
	const auto* d = system<T, eDiscretization::DISCRETE>(mk, false);
	const T x = T(mk.real(-2, 2));
	const std::complex<T> z(T(mk.real(-1, 1)), T(mk.real(-1, 1)));
	const auto* t = mk.obj([&] { return DiscreteTransferFunction<T>(*d); });
	const auto* c = mk.obj([&] { return CascadedBiquad<T>(*d); });
	return [=](Ex& ex) {
		ex.call([&] { return (*d)(x); });
		ex.call([&] { return (*d)(z); });
		ex.call([&] { return (*t)(x); });
		ex.call([&] { return (*t)(z); });
		ex.call([&] { return (*c)(x); });
		ex.call([&] { return (*c)(z); });
		ex.puts(d->order(), t->order(), c->order());
		ex.call([&] { return DiscreteTransferFunction<T>(*d); });
		ex.call([&] { return CascadedBiquad<T>(*d); });
		ex.call([&] { return *d; });
		ex.call([&] { return *t; });
		ex.call([&] { return *c; });
	};
}

template <class T> Exec elliptic(Mk& mk) {
	using C = std::complex<T>;
	const T k = mk.chance(1, 6) ? T(mk.below(2)) : T(mk.real(0.01, 0.99));
	const T x = T(mk.real(-3, 3));
	const C z(T(mk.real(-1, 1)), T(mk.real(-0.5, 0.5)));
	const T y = T(mk.real(-0.9, 0.9));
	const T dn = T(0.95);
	return [=](Ex& ex) {
		ex.call([&] { return CarlsonRF(T(0.5) + x * x, T(1), k); });
		ex.call([&] { return EllipticAM(x, k); });
		ex.call([&] { return EllipticSNCNDN(x, k); });
		ex.call([&] { return EllipticSNCNDN(z, k); });
		ex.puts(ex.lib([&] { return EllipticSN(x, k); }), ex.lib([&] { return EllipticCN(x, k); }), ex.lib([&] { return EllipticDN(z, k); }));
		if (k > T(0) && k < T(1)) {
			ex.call([&] { return EllipticK(k); });
			ex.call([&] { return EllipticArcSN(y, k); });
			ex.call([&] { return EllipticArcCN(y, k); });
			ex.call([&] { return EllipticArcSN(z, k); });
			ex.call([&] { return EllipticArcCN(z, k); });
			ex.call([&] { return EllipticArcDN(z, k); });
			ex.call([&] { return EllipticArcDN(std::max(dn, T(std::sqrt(1 - k * k))), k); });
		}
	};
}

template <class I> Exec intervals(Mk& mk) {
	auto one = [&] { const I a = I(mk.range(-20, 20)); return Interval<I>(a, a + I(mk.range(0, 15))); };
	const auto a = one(), b = one();
	const I k = I(mk.range(-5, 5));
	return [=](Ex& ex) {
		ex.lib([&] {
			ex.puts(IsDisjoint(a, b), Intersection(a, b), EncompassingUnion(a, b), Union(a, b), a + k, a - k, a == b, a != b);
		});
	};
}

#define FD(fn) [](Mk& mk) { return mk.types<F, D>([&](auto t) { return fn<typename decltype(t)::type>(mk); }); }
Reg p1("Polynomial", FD(polyEval));
Reg p2("FactoredPolynomial, ExpandPolynomial", FD(factoredOps), 3);
Reg p3("FactoredPolynomial from unpaired roots", FD(badRoots), 1);
Reg p4("Rational", [](Mk& mk) { return mk.types<int, long long>([&](auto t) { return rational<typename decltype(t)::type>(mk); }); }, 1);
Reg p5("Bisect, NewtonRaphson", FD(solvers), 1);
Reg p6("TransformRoots, TransformGain", FD(rootTransforms));
Reg p7("BilinearTransform", FD(bilinear));
Reg p8("ZeroPoleGain, TransferFunction, CascadedBiquad", FD(systems), 3);
Reg p9("Elliptic functions", FD(elliptic), 3);
Reg p10("Interval", [](Mk& mk) { return mk.types<int, long>([&](auto t) { return intervals<typename decltype(t)::type>(mk); }); }, 1);

} // namespace
