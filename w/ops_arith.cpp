// Elementwise arithmetic and functions.
#include "ops.hpp"

#include <dspbb/Math/Functions.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>

using namespace ops;

namespace {

using F = float;
using D = double;
using CF = std::complex<float>;
using CD = std::complex<double>;

struct OpAdd {
	template <class R, class A, class B> static void three(R&& r, const A& a, const B& b) { Add(r, a, b); }
	template <class A, class B> static auto ret(const A& a, const B& b) { return a + b; }
	template <class A, class B> static auto& comp(A&& a, const B& b) { return a += b; }
};
struct OpSub {
	template <class R, class A, class B> static void three(R&& r, const A& a, const B& b) { Subtract(r, a, b); }
	template <class A, class B> static auto ret(const A& a, const B& b) { return a - b; }
	template <class A, class B> static auto& comp(A&& a, const B& b) { return a -= b; }
};
struct OpMul {
	template <class R, class A, class B> static void three(R&& r, const A& a, const B& b) { Multiply(r, a, b); }
	template <class A, class B> static auto ret(const A& a, const B& b) { return a * b; }
	template <class A, class B> static auto& comp(A&& a, const B& b) { return a *= b; }
};
struct OpDiv {
	template <class R, class A, class B> static void three(R&& r, const A& a, const B& b) { Divide(r, a, b); }
	template <class A, class B> static auto ret(const A& a, const B& b) { return a / b; }
	template <class A, class B> static auto& comp(A&& a, const B& b) { return a /= b; }
};

template <class A, class B> struct Pair { using a = A; using b = B; using r = decltype(A() * B()); };

// How the operands are given: 0 signals, 1 scalar left, 2 scalar right; where the result goes: 0 separate output,
// 1 over the left operand, 2 returned, 3 compound assignment, 4 returned from owning signals.
template <class O, class P> Exec arith(Mk& mk) {
	using A = typename P::a;
	using B = typename P::b;
	using R = typename P::r;
	const int form = int(mk.below(3));
	const int dest = int(mk.below(5));
	const bool freq = mk.chance(1, 3);
	const size_t n = mk.len();
	auto go = [=]<eSignalDomain Dm>(std::integral_constant<eSignalDomain, Dm>, In<A> ia, In<B> ib, A sa, B sb, const BasicSignal<A, Dm>* oa, const BasicSignal<B, Dm>* ob) -> Exec {
		return [=](Ex& ex) {
			const auto a = ia.template as<Dm>();
			const auto b = ib.template as<Dm>();
			if (dest == 0) {
				auto r = ex.out<R>(n);
				ex.lib([&] { form == 0 ? O::three(r.template as<Dm>(), a, b) : form == 1 ? O::three(r.template as<Dm>(), sa, b) : O::three(r.template as<Dm>(), a, sb); });
				ex.put(r);
			}
			else if (dest == 2) {
				if (form == 0) {
					auto r = ex.lib([&] { return O::ret(a, b); });
					ex.put(r);
				}
				else if (form == 1) {
					auto r = ex.lib([&] { return O::ret(sa, b); });
					ex.put(r);
				}
				else {
					auto r = ex.lib([&] { return O::ret(a, sb); });
					ex.put(r);
				}
			}
			else if (dest == 4) {
				auto r = ex.lib([&] { return O::ret(*oa, *ob); });
				ex.put(r);
			}
			else {
				if constexpr (std::is_same_v<R, A>) {
					auto r = ex.copy(ia);
					auto v = r.template as<Dm>();
					if (dest == 1) {
						ex.lib([&] { form == 0 ? O::three(v, v, b) : form == 1 ? (void)O::comp(v, v) : O::three(v, v, sb); });
					}
					else {
						const bool same = ex.lib([&] { return form == 0 ? &O::comp(v, b) == &v : &O::comp(v, sb) == &v; });
						ex.put(same);
					}
					ex.put(r);
				}
				else {
					auto r = ex.copy(ib);
					auto v = r.template as<Dm>();
					if constexpr (std::is_same_v<R, B>) {
						ex.lib([&] { form == 1 ? O::three(v, sa, v) : O::three(v, a, v); });
					}
					ex.put(r);
				}
			}
		};
	};
	auto ia = mk.in<A>(n);
	auto ib = mk.in<B>(n);
	Rng r(mk.next());
	const A sa = genValue<A>(r, 1);
	const B sb = genValue<B>(r, 1);
	auto finish = [&]<eSignalDomain Dm>(std::integral_constant<eSignalDomain, Dm> d) -> Exec {
		const BasicSignal<A, Dm>* oa = nullptr;
		const BasicSignal<B, Dm>* ob = nullptr;
		if (dest == 4) {
			oa = mk.obj([&] { return BasicSignal<A, Dm>(ia.begin(), ia.end()); });
			ob = mk.obj([&] { return BasicSignal<B, Dm>(ib.begin(), ib.end()); });
		}
		return go(d, ia, ib, sa, sb, oa, ob);
	};
	return freq ? finish(std::integral_constant<eSignalDomain, eSignalDomain::FREQUENCY>{}) : finish(std::integral_constant<eSignalDomain, eSignalDomain::TIME>{});
}

template <class O> Exec anyArith(Mk& mk) {
	return mk.types<Pair<F, F>, Pair<D, D>, Pair<CF, CF>, Pair<CD, CD>, Pair<F, CF>, Pair<CF, F>, Pair<D, CD>, Pair<CD, D>>([&](auto t) { return arith<O, typename decltype(t)::type>(mk); });
}

// Elementwise functions.
enum Dom { ANY, POSITIVE, UNIT, ABOVE1 };
template <class T> In<T> domainIn(Mk& mk, size_t n, Dom d) {
	using R = RealT<T>;
	return mk.inBy<T>(n, [d](Rng& r, size_t) {
		auto one = [&]() -> R {
			switch (d) {
				case POSITIVE: return R(0.01 + 4 * r.unit());
				case UNIT: return R(0.99 * r.sym());
				case ABOVE1: return R(1.01 + 3 * r.unit());
				default: return R(4 * r.sym());
			}
		};
		if constexpr (isComplex<T>) {
			const R re = one();
			return T(re, R(2 * r.sym()));
		}
		else {
			return one();
		}
	});
}

#define FUNC(NAME, DOM) \
	struct Fn##NAME { \
		static constexpr Dom dom = DOM; \
		template <class R, class A> static void to(R&& r, const A& a) { NAME(r, a); } \
		template <class A> static auto ret(const A& a) { return NAME(a); } \
	};
FUNC(Abs, ANY) FUNC(Arg, ANY) FUNC(Real, ANY) FUNC(Imag, ANY) FUNC(Conj, ANY)
FUNC(Log, POSITIVE) FUNC(Log2, POSITIVE) FUNC(Log10, POSITIVE) FUNC(Exp, ANY)
FUNC(Sqrt, POSITIVE) FUNC(Cbrt, ANY)
FUNC(Sin, ANY) FUNC(Cos, ANY) FUNC(Tan, ANY) FUNC(Asin, UNIT) FUNC(Acos, UNIT) FUNC(Atan, ANY)
FUNC(Sinh, ANY) FUNC(Cosh, ANY) FUNC(Tanh, ANY) FUNC(Asinh, ANY) FUNC(Acosh, ABOVE1) FUNC(Atanh, UNIT)
FUNC(Erf, ANY) FUNC(Erfc, ANY) FUNC(TGamma, POSITIVE) FUNC(LGamma, POSITIVE)

template <class Fn, class T> Exec func(Mk& mk) {
	const int dest = int(mk.below(3));
	const size_t n = mk.len();
	const auto a = domainIn<T>(mk, n, Fn::dom);
	return [=](Ex& ex) {
		using R = typename decltype(Fn::ret(a.view()))::value_type;
		if (dest == 0) {
			auto r = ex.out<R>(n);
			ex.lib([&] { Fn::to(r.view(), a.view()); });
			ex.put(r);
		}
		else if (dest == 1) {
			auto r = ex.lib([&] { return Fn::ret(a.view()); });
			ex.put(r);
		}
		else if constexpr (std::is_same_v<R, T>) {
			auto r = ex.copy(a);
			ex.lib([&] { Fn::to(r.view(), r.view()); });
			ex.put(r);
		}
	};
}
template <class... Fns> struct List {};
template <class... Fns> Exec anyFunc(Mk& mk, List<Fns...>, bool) {
	const uint64_t k = mk.below(sizeof...(Fns));
	Exec e;
	uint64_t i = 0;
	auto one = [&](auto f) {
		if (i++ == k) {
			e = mk.types<F, D>([&](auto t) { return func<typename decltype(f)::type, typename decltype(t)::type>(mk); });
		}
	};
	(one(tag<Fns>{}), ...);
	return e;
}
template <class... Fns> Exec anyFuncC(Mk& mk, List<Fns...>) {
	const uint64_t k = mk.below(sizeof...(Fns));
	Exec e;
	uint64_t i = 0;
	auto one = [&](auto f) {
		if (i++ == k) {
			e = mk.types<CF, CD>([&](auto t) { return func<typename decltype(f)::type, typename decltype(t)::type>(mk); });
		}
	};
	(one(tag<Fns>{}), ...);
	return e;
}

template <class T> Exec power(Mk& mk) {
	const int dest = int(mk.below(3));
	const size_t n = mk.len();
	const auto a = domainIn<T>(mk, n, POSITIVE);
	const T p = T(mk.real(-3, 3));
	const auto* own = mk.obj([&] { return BasicSignal<T, eSignalDomain::TIME>(a.begin(), a.end()); });
	return [=](Ex& ex) {
		if (dest == 0) {
			auto r = ex.out<T>(n);
			ex.lib([&] { Pow(r.view(), a.view(), p); });
			ex.put(r);
		}
		else if (dest == 1) {
			auto r = ex.lib([&] { return Pow(*own, p); });
			ex.put(r);
		}
		else {
			auto r = ex.copy(a);
			ex.lib([&] { Pow(r.view(), r.view(), p); });
			ex.put(r);
		}
	};
}

#if PART == 0
Reg rAdd("Add", anyArith<OpAdd>);
#elif PART == 1
Reg rSub("Subtract", anyArith<OpSub>);
#elif PART == 2
Reg rMul("Multiply", anyArith<OpMul>);
#elif PART == 3
Reg rDiv("Divide", anyArith<OpDiv>);
#elif PART == 4
Reg rFn1("Functions(real): exponential, roots, parts", [](Mk& mk) { return anyFunc(mk, List<FnAbs, FnArg, FnReal, FnImag, FnConj, FnLog, FnLog2, FnLog10, FnExp, FnSqrt, FnCbrt>{}, true); }, 3);
Reg rPow("Pow", [](Mk& mk) { return mk.types<F, D>([&](auto t) { return power<typename decltype(t)::type>(mk); }); });
#elif PART == 5
Reg rFn2("Functions(real): trigonometric, hyperbolic, gamma", [](Mk& mk) { return anyFunc(mk, List<FnSin, FnCos, FnTan, FnAsin, FnAcos, FnAtan, FnSinh, FnCosh, FnTanh, FnAsinh, FnAcosh, FnAtanh, FnErf, FnErfc, FnTGamma, FnLGamma>{}, true); }, 3);
#elif PART == 6
Reg rFn3("Functions(complex)", [](Mk& mk) { return anyFuncC(mk, List<FnAbs, FnArg, FnReal, FnImag, FnConj, FnLog, FnLog10, FnExp, FnSqrt, FnSin, FnCos, FnTan, FnSinh, FnCosh, FnTanh>{}); }, 3);
#endif

} // namespace
