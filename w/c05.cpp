// C05: windows of a convolution, computed in any order, repeatedly, by either engine, clearing or accumulating, with
// failing allocations, assemble into the full convolution and touch nothing else.
#include "../sim/util.hpp"

#include <dspbb/Filtering/FIR/Filter.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

using namespace sim;
using namespace dspbb;

namespace {

struct Task {
	size_t off, len;
	unsigned times = 0;
};

template <class T, class U>
void runTyped() {
	using R = multiplies_result_t<T, U>;
	heap::Config heapConfig = drawHeap("heap");
	heap::configure(heapConfig);
	const bool big = draw(16, "big") == 15;
	// Rarely operands beyond 2^16 samples: one of them, or both (then one is all but a few samples zero, for the reference's sake).
	const uint32_t lengthy = draw(500, "lengthy") / 499 * (1 + (draw(5, "lengthy") > 1));
	if (lengthy) {
		count("event.lengthy");
		heapConfig.reuse = heap::REUSE_LIFO; // a long history of fresh memory would exceed the simulated machine
		heap::configure(heapConfig);
	}
	const uint32_t nu = lengthy == 2 ? range(20000, 70000, "u.length") : lengthy ? range(65530, 140000, "u.length") : drawSize(0, big ? 4000 : 500, "u.length");
	const uint32_t nv = lengthy == 2 ? range(20000, 60000, "v.length") : drawSize(0, lengthy ? 24 : big ? 900 : 300, "v.length");
	auto u = gen<T>(nu, draw(1 << 16, "u.data"), int(draw(DATA_KINDS, "u.kind")));
	if (lengthy == 2) {
		const uint32_t stride = range(700, 3000, "u.stride");
		for (uint32_t i = 0; i < nu; ++i) {
			if (i % stride) {
				u[i] = T(0);
			}
		}
	}
	const auto v = gen<U>(nv, draw(1 << 16, "v.data"), int(draw(DATA_KINDS, "v.kind")));
	const auto ub = bufOf(u, draw(2, "u.place"));
	const auto vb = bufOf(v, draw(2, "v.place"));
	std::vector<cld> ref;
	std::vector<ld> absRef;
	refConv(u, v, ref, absRef);
	const ld X = maxAbs(u), H = maxAbs(v);
	const size_t full = ref.size(), shorter = std::min(nu, nv), longer = std::max(nu, nv);
	const BasicSignalView<const T, TIME_DOMAIN> uv(ub.begin(), ub.size());
	const BasicSignalView<const U, TIME_DOMAIN> vv(vb.begin(), vb.size());

	// The assembly area: the full result with margins the library must not touch.
	const size_t margin = draw(5, "margin");
	Buf<R> area(full + 2 * margin, draw(2, "area.place"));
	poison(area.data(), area.size(), 1);
	std::vector<cld> model(area.size());
	std::vector<ld> tol(area.size(), 0);
	for (size_t i = 0; i < area.size(); ++i) {
		model[i] = toLd(area[i]);
	}

	// Windows: a partition of the result, plus extra overlapping, empty, full and central ones.
	std::vector<Task> tasks;
	{
		const int cut = int(draw(4, "cut.kind"));
		const uint32_t cutSize = drawSize(1, uint32_t(full), "cut.size");
		for (size_t at = 0; at < full;) {
			size_t n = cut == 0 ? full : cut == 1 ? cutSize : drawSize(0, uint32_t(full), "cut.window");
			if (tasks.size() > 20) {
				n = std::max<size_t>(n, full / 8 + 1);
			}
			n = std::min(n, full - at);
			tasks.push_back({ at, n });
			at += n;
		}
		const uint32_t extra = draw(4, "windows.extra");
		for (uint32_t i = 0; i < extra; ++i) {
			const size_t off = draw(full + 1, "window.offset");
			tasks.push_back({ off, drawSize(0, uint32_t(full - off), "window.length") });
		}
	}
	if (tasks.empty()) {
		// An empty operand: the only window of the result is the empty one.
		tasks.push_back({ 0, 0 });
		count("event.empty_operand");
	}
	const size_t required = tasks.size();
	const uint32_t engineMix = lengthy == 2 ? 2 : draw(3, "mix.engine"), faultMix = draw(4, "mix.fault"), accMix = draw(3, "mix.accumulate");
	uint64_t sig = mix(nu, nv);
	size_t pending = required;
	unsigned steps = 0, faults = 0, dups = 0, accs = 0, reordered = 0;
	size_t lastDone = 0;
	std::vector<uint8_t> done(required, 0);
	while (pending > 0 && ++steps < 400) {
		size_t ti = draw(uint64_t(required), "step.window");
		if (done[ti] && !flip(1, 4, "step.redo")) {
			while (done[ti]) {
				ti = (ti + 1) % required;
			}
		}
		auto& t = tasks[ti];
		if (done[ti]) {
			++dups;
			count("fault.window_redelivered");
		}
		if (ti < lastDone) {
			++reordered;
			count("fault.window_reordered");
		}
		lastDone = ti;
		const bool ola = engineMix == 2 || (engineMix == 1 && draw(2, "step.engine"));
		const bool acc = accMix == 2 || (accMix == 1 && draw(2, "step.accumulate"));
		size_t chunk = 0;
		if (ola && draw(2, "step.chunk")) {
			chunk = std::max<size_t>(1, 2 * shorter) - 1 + drawSize(0, 500, "step.chunksize");
		}
		// With the optional parameters left out.
		const bool plain = !chunk && draw(2, "step.plain");
		// 0: offset+out, 1: offset+length returning, 2: full, 3: central (own window)
		const int form = int(draw(8, "step.form"));
		size_t off = t.off, len = t.len;
		const bool isFull = form == 6, isCentral = form == 7;
		if (isFull) {
			off = 0;
			len = full;
		}
		if (isCentral) {
			off = shorter ? shorter - 1 : 0;
			len = shorter ? longer - shorter + 1 : 0;
		}
		const bool returning = form == 5 || (form >= 6 && draw(2, "step.returning"));
		const bool viaFilter = form >= 6 && draw(2, "step.viafilter");
		const bool swap = draw(3, "step.swap") == 2;
		const bool inject = faultMix && flip(faultMix, 8, "step.fault");
		const uint64_t failAt = inject ? 1 + drawSize(0, 40, "step.failat") : 0;
		const bool persistent = inject && draw(2, "step.persistent");
		std::vector<R> before(area.begin() + ptrdiff_t(margin + off), area.begin() + ptrdiff_t(margin + off + len));
		const auto hashOutside = [&] {
			return mix(hashBytes(area.data(), (margin + off) * sizeof(R)), hashBytes(area.data() + margin + off + len, (area.size() - margin - off - len) * sizeof(R)));
		};
		const uint64_t outside = hashOutside();
		BasicSignalView<R, TIME_DOMAIN> out(area.begin() + margin + off, len);
		for (int attempt = 0;; ++attempt) {
			bool failed = false;
			uint64_t fired = 0;
			const auto call = [&](const auto& a, const auto& b) {
				if (plain && ola && (returning || !acc)) {
					BasicSignal<R, TIME_DOMAIN> r;
					if (returning) {
						r = isFull ? viaFilter ? Filter(a, b, CONV_FULL, FILTER_OLA) : OverlapAdd(a, b, CONV_FULL) : isCentral ? viaFilter ? Filter(a, b, CONV_CENTRAL, FILTER_OLA) : OverlapAdd(a, b, CONV_CENTRAL) : OverlapAdd(a, b, off, len);
						heap::disarmFault();
						if (r.size() != len) {
							fail("wrong-length", "a window of %zu samples was requested, %zu returned", len, r.size());
						}
						for (size_t i = 0; i < len; ++i) {
							out[i] = acc ? R(out[i] + r[i]) : r[i];
						}
					}
					else if (isFull) {
						viaFilter ? Filter(out, a, b, CONV_FULL, FILTER_OLA) : OverlapAdd(out, a, b, CONV_FULL);
					}
					else if (isCentral) {
						viaFilter ? Filter(out, a, b, CONV_CENTRAL, FILTER_OLA) : OverlapAdd(out, a, b, CONV_CENTRAL);
					}
					else {
						OverlapAdd(out, a, b, off);
					}
				}
				else if (plain && !returning && !acc && !ola) {
					if (isFull) {
						Convolution(out, a, b, CONV_FULL);
					}
					else if (isCentral) {
						Convolution(out, a, b, CONV_CENTRAL);
					}
					else {
						Convolution(out, a, b, off);
					}
				}
				else if (returning) {
					BasicSignal<R, TIME_DOMAIN> r;
					if (isFull) {
						r = viaFilter ? (ola ? Filter(a, b, CONV_FULL, FILTER_OLA, chunk) : Filter(a, b, CONV_FULL, FILTER_CONV)) : (ola ? OverlapAdd(a, b, CONV_FULL, chunk) : Convolution(a, b, CONV_FULL));
					}
					else if (isCentral) {
						r = viaFilter ? (ola ? Filter(a, b, CONV_CENTRAL, FILTER_OLA, chunk) : Filter(a, b, CONV_CENTRAL, FILTER_CONV)) : (ola ? OverlapAdd(a, b, CONV_CENTRAL, chunk) : Convolution(a, b, CONV_CENTRAL));
					}
					else {
						r = ola ? OverlapAdd(a, b, off, len, chunk) : Convolution(a, b, off, len);
					}
					if (r.size() != len) {
						fail("wrong-length", "a window of %zu samples was requested, %zu returned", len, r.size());
					}
					heap::disarmFault();
					for (size_t i = 0; i < len; ++i) {
						out[i] = acc ? R(out[i] + r[i]) : r[i];
					}
				}
				else if (viaFilter && !acc && isFull) {
					ola ? Filter(out, a, b, CONV_FULL, FILTER_OLA, chunk) : Filter(out, a, b, CONV_FULL, FILTER_CONV);
				}
				else if (viaFilter && !acc && isCentral) {
					ola ? Filter(out, a, b, CONV_CENTRAL, FILTER_OLA, chunk) : Filter(out, a, b, CONV_CENTRAL, FILTER_CONV);
				}
				else if (isFull) {
					ola ? OverlapAdd(out, a, b, CONV_FULL, chunk, !acc) : Convolution(out, a, b, CONV_FULL, !acc);
				}
				else if (isCentral) {
					ola ? OverlapAdd(out, a, b, CONV_CENTRAL, chunk, !acc) : Convolution(out, a, b, CONV_CENTRAL, !acc);
				}
				else {
					ola ? OverlapAdd(out, a, b, off, chunk, !acc) : Convolution(out, a, b, off, !acc);
				}
			};
			{
				heap::Scope scope;
				if (attempt == 0 && failAt) {
					heap::armFault(failAt, persistent);
				}
				else {
					heap::disarmFault();
				}
				try {
					if (swap) {
						call(vv, uv);
					}
					else {
						call(uv, vv);
					}
				}
				catch (const std::bad_alloc&) {
					failed = true;
				}
				fired = attempt == 0 && failAt ? heap::faultsFired() : 0;
				heap::disarmFault();
			}
			if (hashOutside() != outside) {
				fail("outside-window", "computing window [%zu,%zu) of %zu changed samples outside it (%s%s)", off, off + len, full, ola ? "overlap-add" : "convolution", failed ? ", failed" : "");
			}
			if (!failed) {
				break;
			}
			if (!fired) {
				fail("spurious-failure", "window [%zu,%zu) failed although memory was available", off, off + len);
			}
			++faults;
			count("fault.alloc_failed");
			// The worker puts its own window back and tries again.
			std::copy(before.begin(), before.end(), area.begin() + ptrdiff_t(margin + off));
		}
		evBytes(out.data(), len * sizeof(R));
		count(ola ? "op.window_ola" : "op.window_conv");
		samples(len);
		trace("window [%zu,%zu) of %zu: %s, %s%s%s, chunk %zu", off, off + len, full, ola ? "overlap-add" : "convolution", acc ? "accumulate" : "clear", returning ? ", returning" : "", swap ? ", operands swapped" : "", chunk);
		accs += acc;
		for (size_t i = 0; i < len; ++i) {
			const size_t at = margin + off + i;
			const ld step = convTol<RealT<R>>(absRef[off + i], shorter, longer, chunk, X, H);
			if (acc) {
				// Overlap-add adds piecewise to what is there: each addition may round at the magnitude present.
				const ld there = std::abs(model[at]);
				model[at] += ref[off + i];
				tol[at] += step + (ola ? 6 : 4) * ld(ola ? (chunk ? chunk / shorter + 2 : 8) : std::min<size_t>(shorter, 64) + 2) * std::numeric_limits<RealT<R>>::epsilon() * (there + absRef[off + i]);
			}
			else {
				model[at] = ref[off + i];
				tol[at] = step;
			}
			if (!(std::abs(toLd(area[at]) - model[at]) <= tol[at])) {
				fail("window-mismatch", "%s(%u) * %s(%u), window [%zu,%zu), %s, %s%s%s, chunk %zu: sample %zu is %s instead of %s (allowed error %.3Lg)",
					 typeName<T>(), nu, typeName<U>(), nv, off, off + len, ola ? "overlap-add" : "convolution", acc ? "accumulating" : "clearing", returning ? ", returning" : "", swap ? ", operands swapped" : "", chunk, off + i, show(area[at]).c_str(), showLd(model[at]).c_str(), tol[at]);
			}
		}
		sig = mix(sig, mix(mix(off, len), mix(ola * 2 + acc, chunk)));
		if (!done[ti] && !isFull && !isCentral) {
			done[ti] = 1;
			--pending;
		}
		else if (!done[ti] && steps > 60) {
			done[ti] = 1;
			--pending;
		}
	}
	if (steps > 1) {
		nontrivial(sig);
	}
	distinct("window_histories", sig);
	summary("%s(%u) * %s(%u): %zu windows, %u steps, %u redelivered, %u out of order, %u accumulating, %u failed allocations", typeName<T>(), nu, typeName<U>(), nv, required, steps, dups, reordered, accs, faults);
}

} // namespace

#define TYPE_PARTS(X) \
	X(1, double, double) \
	X(2, float, float) \
	X(3, std::complex<float>, float) \
	X(4, std::complex<double>, std::complex<double>) \
	X(5, float, std::complex<float>) \
	X(6, std::complex<double>, double)
#define DECLARE(n, T, U) void part##n();
TYPE_PARTS(DECLARE)

#if PART == 0
static void run(int) {
	switch (1 + draw(6, "types")) {
#define CASE(n, T, U) case n: return part##n();
		TYPE_PARTS(CASE)
	}
}
const Workload sim::workload{ "C05", 1, run };
#elif PART == 1
void part1() { runTyped<double, double>(); }
#elif PART == 2
void part2() { runTyped<float, float>(); }
#elif PART == 3
void part3() { runTyped<std::complex<float>, float>(); }
#elif PART == 4
void part4() { runTyped<std::complex<double>, std::complex<double>>(); }
#elif PART == 5
void part5() { runTyped<float, std::complex<float>>(); }
#elif PART == 6
void part6() { runTyped<std::complex<double>, double>(); }
#endif
