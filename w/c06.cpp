// C06: a chain of streaming stages connected by bounded queues delivers the whole-stream result under every schedule
// of the stages, with crashes, restarts from saved state and redelivery.
#include "../sim/util.hpp"

#include <dspbb/Filtering/FIR/Filter.hpp>
#include <dspbb/Filtering/IIR/Filter.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/LTISystems/Systems.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
#include <dspbb/Primitives/SignalView.hpp>

#include <memory>

using namespace sim;
using namespace dspbb;

namespace {

enum Kind { K_FIR, K_IIR1, K_IIR2, K_CASCADE, K_DECIMATE, K_EXPAND, K_INTERPOLATE, K_RESAMPLE, K_GAIN, K_KINDS };
const char* kindName[] = { "fir", "direct form I", "direct form II", "cascade", "decimate", "expand", "interpolate", "resample", "gain" };

// All that a stage must save to continue later.
template <class T>
struct State {
	size_t in = 0;  // inputs consumed (or: first input still needed)
	size_t out = 0; // outputs produced
	BasicSignal<T, TIME_DOMAIN> fir;
	DirectFormI<T> d1;
	DirectFormII<T> d2;
	CascadedForm<T> casc;
	size_t offset = 0;
	Rational<int64_t> pos{ 0, 1 };
};

template <class T>
struct Stage {
	using S = RealT<T>;
	Kind kind;
	size_t inTotal = 0, outTotal = 0;
	BasicSignal<S, TIME_DOMAIN> taps;
	PolyphaseFilter<S, TIME_DOMAIN> poly;
	size_t phases = 1, rate = 1;
	int64_t num = 1, den = 1;
	DiscreteTransferFunction<S> tf;
	CascadedBiquad<S> biquads;
	S gain = 1;
	State<T> now, saved;
	std::vector<T> log; // delivered outputs
	std::vector<cld> ref;
	ld tol = 0;
	size_t retention = 2; // input samples the stage may have to hold
	bool useOla = false;
	uint32_t blockMode = 0, blockSize = 1;
};

std::vector<ld> polyFromRoots(const std::vector<std::complex<double>>& roots) {
	std::vector<cld> p{ cld(1) };
	for (auto& r : roots) {
		p.push_back(cld(0));
		for (size_t i = p.size() - 1; i > 0; --i) {
			p[i] -= p[i - 1] * cld(r.real(), r.imag());
		}
	}
	std::vector<ld> o;
	for (auto& v : p) {
		o.push_back(v.real());
	}
	return o;
}

template <class S>
std::vector<std::complex<double>> drawRoots(Rng& g, uint32_t n, double maxRadius) {
	std::vector<std::complex<double>> r;
	while (r.size() < n) {
		const double rad = maxRadius * (0.2 + 0.8 * g.unit());
		if (n - r.size() >= 2 && g.chance(2, 3)) {
			const double angle = 0.1 + 2.9 * g.unit();
			const S re = S(rad * std::cos(angle)), im = S(std::max(1e-3, rad * std::sin(angle)));
			r.push_back({ double(re), double(im) });
			r.push_back({ double(re), -double(im) });
		}
		else {
			r.push_back({ double(S(g.chance(1, 2) ? rad : -rad)), 0.0 });
		}
	}
	return r;
}

template <class T>
void runTyped() {
	using S = RealT<T>;
	const ld eps = std::numeric_limits<S>::epsilon();
	constexpr bool single = std::is_same_v<S, float>;
	heap::configure(drawHeap("heap"));
	const bool big = draw(14, "big") == 13;
	const uint32_t len = drawSize(1, big ? 2500 : 300, "source.length");
	const auto source = gen<T>(len, draw(1 << 16, "source.data"), int(draw(DATA_KINDS, "source.kind")));
	const uint32_t nStages = 2 + draw(thorough ? 6 : 5, "stages");
	std::vector<std::unique_ptr<Stage<T>>> stages;
	std::vector<cld> ref;
	for (auto& v : source) {
		ref.push_back(toLd(v));
	}
	ld tol = 0;
	uint64_t sig = len;
	std::string names;
	for (uint32_t i = 0; i < nStages; ++i) {
		auto p = std::make_unique<Stage<T>>();
		auto& s = *p;
		s.kind = Kind(draw(K_KINDS, "stage.kind"));
		s.inTotal = ref.size();
		s.useOla = draw(2, "stage.ola");
		s.blockMode = draw(4, "stage.blocks");
		s.blockSize = drawSize(1, big ? 1500 : 120, "stage.blocksize");
		Rng g(draw(1 << 16, "stage.data"));
		ld X = 0;
		for (auto& v : ref) {
			X = std::max(X, std::abs(v));
		}
		std::vector<cld> out;
		ld outTol = 0;
		const auto makeTaps = [&](size_t n) {
			std::vector<S> t(n);
			ld sum = 0;
			for (auto& v : t) {
				v = S(g.sym());
				sum += std::fabs(ld(v));
			}
			for (auto& v : t) {
				v = S(ld(v) / sum);
			}
			s.taps = BasicSignal<S, TIME_DOMAIN>(t.begin(), t.end());
		};
		// Rates that would blow the stream up (or down to nothing) become gains.
		if ((s.kind == K_EXPAND || s.kind == K_INTERPOLATE || s.kind == K_RESAMPLE) && ref.size() > (big ? 2500 : 600)) {
			s.kind = K_GAIN;
		}
		switch (s.kind) {
			case K_FIR: {
				makeTaps(drawSize(1, big ? 400 : 80, "stage.taps"));
				const size_t F = s.taps.size();
				s.outTotal = s.inTotal;
				out.assign(s.outTotal, cld(0));
				for (size_t n = 0; n < out.size(); ++n) {
					for (size_t k = 0; k < F && k <= n; ++k) {
						out[n] += ref[n - k] * ld(s.taps[k]);
					}
				}
				outTol = tol * 1.01L + convTol<S>(X, F, s.inTotal, 0, X, 1);
				s.now.fir = BasicSignal<T, TIME_DOMAIN>(F - 1, T(0));
				break;
			}
			case K_IIR1:
			case K_IIR2:
			case K_CASCADE: {
				const uint32_t maxOrder = single ? 3 : 6;
				const uint32_t np = 1 + draw(maxOrder, "stage.poles"), nz = draw(maxOrder + 1, "stage.zeros");
				const auto z = drawRoots<S>(g, nz, 1.0), q = drawRoots<S>(g, np, single ? 0.7 : 0.85);
				auto num = polyFromRoots(z), den = polyFromRoots(q);
				std::vector<ld> imp;
				ld G1 = 0, N1 = 0, D1 = 0;
				for (size_t n = 0; n < 400; ++n) {
					ld v = n == 0;
					for (size_t k = 1; k < den.size() && k <= n; ++k) {
						v -= den[k] * imp[n - k];
					}
					imp.push_back(v);
					G1 += std::fabs(v);
				}
				for (auto& v : num) {
					N1 += std::fabs(v);
				}
				const S gain = S(1 / (N1 * G1));
				std::vector<std::complex<S>> zs, qs;
				for (auto& v : z) {
					zs.push_back({ S(v.real()), S(v.imag()) });
				}
				for (auto& v : q) {
					qs.push_back({ S(v.real()), S(v.imag()) });
				}
				const DiscreteZeroPoleGain<S> zpk{ gain, FactoredPolynomial<S>(zs.begin(), zs.end()), FactoredPolynomial<S>(qs.begin(), qs.end()) };
				size_t order;
				if (s.kind == K_CASCADE) {
					s.biquads = CascadedBiquad<S>(zpk);
					order = 2 * s.biquads.sections.size();
				}
				else {
					s.tf = DiscreteTransferFunction<S>(zpk);
					order = s.tf.order();
				}
				N1 = 0;
				for (auto& v : num) {
					v *= gain;
					N1 += std::fabs(v);
				}
				for (auto& v : den) {
					D1 += std::fabs(v);
				}
				s.outTotal = s.inTotal;
				out.assign(s.outTotal, cld(0));
				ld Y = 0;
				for (size_t n = 0; n < out.size(); ++n) {
					for (size_t k = 0; k < num.size() && k <= n; ++k) {
						out[n] += num[k] * ref[n - k];
					}
					for (size_t k = 1; k < den.size() && k <= n; ++k) {
						out[n] -= den[k] * out[n - k];
					}
					Y = std::max(Y, std::abs(out[n]));
				}
				const ld ord = ld(num.size() + den.size());
				outTol = tol * G1 * N1 * 1.01L + (s.kind == K_CASCADE ? 16 : 1) * eps * (8 * ord + 32) * (G1 * (N1 * X + D1 * Y) + N1 * G1 * (X + D1 * G1 * X));
				s.now.d1 = DirectFormI<T>(order);
				s.now.d2 = DirectFormII<T>(order);
				s.now.casc = CascadedForm<T>(order);
				break;
			}
			case K_DECIMATE:
				s.rate = 1 + draw(6, "stage.rate");
				s.outTotal = (s.inTotal + s.rate - 1) / s.rate;
				for (size_t n = 0; n < s.inTotal; n += s.rate) {
					out.push_back(ref[n]);
				}
				outTol = tol;
				s.retention = s.rate + 1;
				break;
			case K_EXPAND:
				s.rate = 1 + draw(5, "stage.rate");
				s.outTotal = s.inTotal * s.rate;
				out.assign(s.outTotal, cld(0));
				for (size_t n = 0; n < s.inTotal; ++n) {
					out[n * s.rate] = ref[n];
				}
				outTol = tol;
				break;
			case K_INTERPOLATE:
			case K_RESAMPLE: {
				makeTaps(drawSize(1, big ? 300 : 60, "stage.taps"));
				s.phases = 1 + draw(7, "stage.phases");
				const size_t F = s.taps.size(), P = s.phases;
				s.poly = PolyphaseDecompose(s.taps, P);
				std::vector<cld> hr(s.inTotal * P + F - 1, cld(0));
				for (size_t m = 0; m < s.inTotal; ++m) {
					for (size_t t = 0; t < F; ++t) {
						hr[m * P + t] += ref[m] * ld(s.taps[t]) * ld(P);
					}
				}
				ld phaseSum = 0;
				for (size_t k = 0; k < P; ++k) {
					ld v = 0;
					for (size_t t = k; t < F; t += P) {
						v += std::fabs(ld(s.taps[t])) * ld(P);
					}
					phaseSum = std::max(phaseSum, v);
				}
				outTol = tol * phaseSum * 1.01L + eps * (24 + 4 * ld(F / P + 2)) * phaseSum * X;
				s.retention = F / P + 4;
				if (s.kind == K_INTERPOLATE) {
					s.outTotal = hr.size();
					out = hr;
				}
				else {
					static const int64_t rates[][2] = { { 1, 2 }, { 2, 1 }, { 3, 2 }, { 147, 160 }, { 7, 5 }, { 5, 7 }, { 1, 1 }, { 1, 3 }, { 5, 1 } };
					const auto& r = rates[draw(sizeof rates / sizeof rates[0], "stage.rates")];
					s.num = r[0];
					s.den = r[1];
					// floor((N*P+F-1) / (P*num/den))
					s.outTotal = size_t((int64_t(hr.size()) * s.den) / (int64_t(P) * s.num));
					for (size_t q = 0; q < s.outTotal; ++q) {
						const int64_t pn = int64_t(q) * s.num * int64_t(P); // position = pn / den
						const size_t k = size_t(pn / s.den);
						const ld w = ld(pn % s.den) / ld(s.den);
						const cld h0 = k < hr.size() ? hr[k] : cld(0), h1 = k + 1 < hr.size() ? hr[k + 1] : cld(0);
						out.push_back(h0 * (1 - w) + h1 * w);
					}
					s.retention += size_t(s.num / s.den) + 2;
				}
				break;
			}
			default:
				s.gain = S(0.25 * (1 + draw(8, "stage.gain")));
				s.outTotal = s.inTotal;
				for (auto& v : ref) {
					out.push_back(v * ld(s.gain));
				}
				outTol = tol * s.gain * 1.01L + 2 * eps * X * s.gain;
		}
		if (s.outTotal == 0) {
			break;
		}
		s.saved = s.now;
		s.ref = out;
		s.tol = outTol + std::numeric_limits<S>::min() * 1024;
		ref = out;
		tol = s.tol;
		sig = mix(sig, mix(s.kind, mix(s.outTotal, s.taps.size())));
		names += (names.empty() ? "" : " > ") + std::string(kindName[s.kind]);
		trace("stage %u: %s, %zu inputs, %zu outputs, %zu taps, rate %zu, phases %zu, ratio %lld/%lld", i, kindName[s.kind], s.inTotal, s.outTotal, s.taps.size(), s.rate, s.phases, (long long)s.num, (long long)s.den);
		stages.push_back(std::move(p));
	}
	if (stages.empty()) {
		return;
	}
	const size_t K = stages.size();
	size_t arrived = 0; // source samples available to stage 0
	std::vector<uint32_t> cap(K);
	for (size_t i = 0; i < K; ++i) {
		// Room in the queue behind stage i: what the next stage may have to hold plus a drawn amount.
		cap[i] = 8 + drawSize(0, big ? 3000 : 200, "queue.capacity") + uint32_t(i + 1 < K ? stages[i + 1]->retention : 0);
	}
	const uint32_t pCrash = draw(4, "mix.crash"), pFault = draw(3, "mix.fault");
	const uint32_t poisonKind = draw(3, "poison");
	unsigned steps = 0, crashes = 0, faults = 0, blocks = 0, redelivered = 0, stalls = 0;
	const unsigned faultSteps = 500;
	while (stages.back()->log.size() < stages.back()->outTotal) {
		if (++steps > 80000) {
			fail("no-progress", "the chain %s does not finish although faults have stopped", names.c_str());
		}
		const bool calm = steps > faultSteps;
		const size_t i = calm ? steps % K : draw(K, "step.stage");
		auto& s = *stages[i];
		auto& st = s.now;
		if (i == 0 && arrived < len) {
			const size_t n = calm ? len : drawSize(0, big ? 1200 : 60, "step.arrive");
			arrived = std::min<size_t>(len, arrived + n);
		}
		if (!calm && pCrash && flip(pCrash, 30, "step.crash")) {
			// The stage's process dies; a new one starts from the saved state and sets its filters up again.
			heap::Scope scope;
			switch (draw(3, "step.restore")) {
				case 0: st = s.saved; break;
				case 1: {
					State<T> c(s.saved);
					st = std::move(c);
					break;
				}
				default: {
					State<T> c;
					c = s.saved;
					std::swap(st, c);
				}
			}
			if (s.kind == K_INTERPOLATE || s.kind == K_RESAMPLE) {
				auto again = PolyphaseDecompose(s.taps, s.phases);
				if (draw(2, "step.rebuild")) {
					s.poly = std::move(again);
				}
				else {
					s.poly = again;
				}
			}
			++crashes;
			count("fault.crash_restart");
			trace("stage %zu crashes: back to input %zu, output %zu", i, st.in, st.out);
			continue;
		}
		if (!calm && flip(1, 5, "step.save")) {
			s.saved = st;
			count("event.checkpoint");
		}
		const size_t delivered = i == 0 ? arrived : stages[i - 1]->log.size();
		const bool ended = delivered == s.inTotal;
		const size_t N = delivered - st.in;
		// Room: outputs that the next stage has not let go of yet.
		size_t room = s.outTotal - st.out;
		if (i + 1 < K) {
			const size_t behind = stages[i + 1]->now.in;
			const size_t used = st.out > behind ? st.out - behind : 0;
			room = std::min<size_t>(room, cap[i] > used ? cap[i] - used : 0);
		}
		// How much may be asked for now, in outputs (inputs for expand).
		size_t avail = 0;
		switch (s.kind) {
			case K_DECIMATE: avail = ended ? (N + s.rate - 1) / s.rate : N / s.rate; break;
			case K_EXPAND: avail = std::min(N, room / s.rate); break;
			case K_INTERPOLATE: {
				const size_t end = ended ? s.inTotal * s.phases + s.taps.size() - 1 : delivered * s.phases;
				avail = N == 0 && st.offset != 0 ? 0 : end > st.out ? end - st.out : 0;
				break;
			}
			case K_RESAMPLE: {
				if (N == 0) {
					break;
				}
				const int64_t P = int64_t(s.phases), F = int64_t(s.taps.size());
				// Outputs q with q+1 <= ((delivered*P+F-1)/P)*den/num, and, before the end, with both phases available.
				const int64_t limit = ((int64_t(delivered) * P + F - 1) * s.den) / (P * s.num);
				avail = limit > int64_t(st.out) ? size_t(limit) - st.out : 0;
				if (!ended) {
					size_t m = 0;
					while (m < avail && (int64_t(st.out + m) * s.num * P) / s.den + 1 < int64_t(delivered) * P) {
						++m;
					}
					avail = m;
				}
				// The position must lie within the result of what has been delivered.
				if (int64_t(st.out) * P * s.num > (int64_t(delivered) * P + F - 1) * s.den) {
					avail = 0;
				}
				break;
			}
			default: avail = N;
		}
		if (s.kind != K_EXPAND) {
			avail = std::min(avail, room);
		}
		size_t n = s.blockMode == 0 ? s.blockSize : s.blockMode == 1 ? drawSize(0, uint32_t(std::max<size_t>(avail, 1)), "step.block") : s.blockMode == 2 ? draw(4, "step.block") : avail;
		if (calm) {
			n = avail;
		}
		n = std::min(n, avail);
		if (n == 0) {
			++stalls;
			count("event.stage_starved_or_blocked");
			// A stage that cannot deliver anything may still call the library, for nothing.
			bool callable = !calm;
			if (s.kind == K_INTERPOLATE) {
				callable = callable && (N ? st.offset <= N * s.phases + s.taps.size() - 1 : st.offset == 0);
			}
			if (s.kind == K_RESAMPLE) {
				callable = callable && N && st.pos * Rational<int64_t>{ s.num, s.den } * int64_t(s.phases) <= int64_t(N * s.phases + s.taps.size() - 1);
			}
			if (!callable || draw(3, "step.empty") != 2) {
				continue;
			}
			count("event.empty_request");
		}
		const size_t take = s.kind == K_DECIMATE ? std::min(N, n * s.rate) : s.kind == K_INTERPOLATE || s.kind == K_RESAMPLE ? N : n;
		const size_t give = s.kind == K_EXPAND ? n * s.rate : n;
		Buf<T> in(take, draw(2, "step.place")), out(give, draw(2, "step.place"));
		for (size_t k = 0; k < take; ++k) {
			in[k] = i == 0 ? source[st.in + k] : stages[i - 1]->log[st.in + k];
		}
		in.readOnly();
		poison(out.data(), give, poisonKind);
		const BasicSignalView<const T, TIME_DOMAIN> iv(in.begin(), take);
		BasicSignalView<T, TIME_DOMAIN> ov(out.begin(), give);
		const bool returning = (s.kind == K_FIR || s.kind == K_DECIMATE || s.kind == K_EXPAND) && draw(3, "step.returning") == 2;
		const uint64_t failAt = !calm && pFault && ((s.kind == K_FIR && s.useOla) || returning) && flip(pFault, 10, "step.fault") ? 1 + draw(30, "step.failat") : 0;
		bool failed = false;
		uint64_t fired = 0;
		size_t inStep = take;
		{
			heap::Scope scope;
			if (failAt) {
				heap::armFault(failAt, draw(2, "step.persistent"));
			}
			try {
				if (returning) {
					// The block is whatever the call returns.
					auto deliver = [&](const auto& r) {
						if (r.size() != give) {
							fail("wrong-length", "stage %s returns %zu samples instead of %zu", kindName[s.kind], size_t(r.size()), give);
						}
						std::copy(r.begin(), r.end(), out.begin());
					};
					switch (s.kind) {
						case K_FIR: s.useOla ? deliver(Filter(iv, s.taps, st.fir, FILTER_OLA)) : deliver(Filter(iv, s.taps, st.fir, FILTER_CONV)); break;
						case K_DECIMATE: deliver(Decimate(iv, s.rate)); break;
						default: deliver(Expand(iv, s.rate));
					}
				}
				else switch (s.kind) {
					case K_FIR:
						if (s.useOla) {
							Filter(ov, iv, s.taps, st.fir, FILTER_OLA);
						}
						else {
							Filter(ov, iv, s.taps, st.fir, FILTER_CONV);
						}
						break;
					case K_IIR1: Filter(ov, iv, s.tf, st.d1); break;
					case K_IIR2: Filter(ov, iv, s.tf, st.d2); break;
					case K_CASCADE: Filter(ov, iv, s.biquads, st.casc); break;
					case K_DECIMATE: Decimate(ov, iv, s.rate); break;
					case K_EXPAND: Expand(ov, iv, s.rate); break;
					case K_INTERPOLATE: {
						const auto sp = Interpolate(ov, iv, s.poly, st.offset);
						inStep = sp.firstInputSample;
						st.offset = sp.startPoint;
						break;
					}
					case K_RESAMPLE: {
						const auto sp = Resample(ov, iv, s.poly, Rational<int64_t>{ s.num, s.den }, st.pos);
						inStep = sp.firstInputSample;
						st.pos = sp.startPoint;
						break;
					}
					default:
						std::copy(iv.begin(), iv.end(), ov.begin());
						ov *= s.gain;
				}
			}
			catch (const std::bad_alloc&) {
				failed = true;
			}
			fired = failAt ? heap::faultsFired() : 0;
			heap::disarmFault();
		}
		if (failed) {
			if (!fired) {
				fail("spurious-failure", "stage %s failed although memory was available", kindName[s.kind]);
			}
			++faults;
			count("fault.alloc_failed");
			trace("stage %zu: allocation failed, block will be retried", i);
			continue;
		}
		++blocks;
		if (inStep > N) {
			fail("suspension-point", "%s stage asks to resume %zu samples into an input of %zu", kindName[s.kind], inStep, N);
		}
		trace("stage %zu (%s): outputs [%zu,%zu) from inputs [%zu,%zu)", i, kindName[s.kind], st.out, st.out + give, st.in, st.in + take);
		evBytes(out.data(), give * sizeof(T));
		ev(mix(i, give));
		samples(give);
		for (size_t k = 0; k < give; ++k) {
			const size_t at = st.out + k;
			if (!(std::abs(toLd(out[k]) - s.ref[at]) <= s.tol)) {
				fail("stream-mismatch", "chain %s (%s): stage %zu (%s) delivers %s as sample %zu, a run over the whole stream gives %s (allowed error %.3Lg)", names.c_str(), typeName<T>(), i, kindName[s.kind], show(out[k]).c_str(), at, showLd(s.ref[at]).c_str(), s.tol);
			}
			if (at < s.log.size()) {
				++redelivered; // seen before; the queue keeps the first
			}
			else {
				s.log.push_back(out[k]);
			}
		}
		st.out += give;
		st.in += inStep;
		sig = mix(sig, mix(i, give));
	}
	if (redelivered) {
		count("fault.samples_redelivered", redelivered);
	}
	if (blocks > K) {
		nontrivial(sig);
	}
	distinct("chains", hashBytes(names.data(), names.size()));
	summary("%s: source %u samples, %s; %u steps, %u blocks, %u crash/restarts, %u samples redelivered, %u failed allocations, %u starved or blocked steps", typeName<T>(), len, names.c_str(), steps, blocks, crashes, redelivered, faults, stalls);
}

} // namespace

#define DECLARE(n) void part##n();
DECLARE(1) DECLARE(2) DECLARE(3) DECLARE(4)
#if PART == 0
static void run(int) {
	switch (draw(4, "types")) {
		case 0: return part1();
		case 1: return part2();
		case 2: return part3();
		default: return part4();
	}
}
const Workload sim::workload{ "C06", 1, run };
#elif PART == 1
void part1() { runTyped<double>(); }
#elif PART == 2
void part2() { runTyped<float>(); }
#elif PART == 3
void part3() { runTyped<std::complex<double>>(); }
#elif PART == 4
void part4() { runTyped<std::complex<float>>(); }
#endif
