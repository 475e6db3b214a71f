// C14: playing a signal presents exactly its samples to the sound device, returns when they have been played, and
// reports what cannot be played.
#include "../examples/RtAudio/RtAudio.h"
#include "../examples/Tools/PlaySound.hpp"
#include "alsa_sim.hpp"

#include "../sim/core.hpp"
#include "../sim/heap.hpp"
#include "../sim/sched.hpp"
#include "../sim/util.hpp"

#include <cmath>
#include <exception>
#include <iostream>
#include <memory>
#include <string>
#include <vector>

using namespace sim;

namespace {

struct Outside {
	int saved = heap::t_scope;
	Outside() { heap::t_scope = 0; }
	~Outside() { heap::t_scope = saved; }
};

struct Player {
	int id;
	bool stereo, callback;
	uint64_t rate;
	std::vector<float> left, right;
	// What the callback has handed out.
	size_t given = 0;
	unsigned calls = 0;
	bool returned = false, ended = false;
	// How the call ended.
	bool threw = false, outOfMemory = false;
	std::string what;
};

// An exception that nobody catches.
void onTerminate() {
	heap::disarmFault();
	heap::t_scope = 0;
	const char* what = "something else than an exception";
	try {
		if (std::current_exception()) {
			std::rethrow_exception(std::current_exception());
		}
	}
	catch (const RtAudioError& e) {
		for (int id = 0; id < 2; ++id) {
			if (const alsasim::Record* r = alsasim::record(id); r && r->drainFailed) {
				fail("drain-failure-terminates", "a device that cannot play its buffer to the end terminates the program");
			}
		}
		fail("terminates", "an error of the sound layer terminates the program: %s", e.what());
	}
	catch (const std::exception& e) {
		what = e.what();
	}
	catch (...) {
	}
	fail("terminates", "the program is terminated: %s", what);
}

void armedForStart(int) { heap::disarmFault(); }

// The application's own callback: fills what it can, in order.
size_t fill(Player& p, dspbb::SignalView<float> l, dspbb::SignalView<float>* r) {
	Outside o;
	if (p.returned) {
		fail("late-callback", "player %d: the callback is called after the call has returned", p.id);
	}
	if (p.ended) {
		fail("late-callback", "player %d: the callback is called again although it said that there is nothing more", p.id);
	}
	++p.calls;
	if (r && r->size() != l.size()) {
		fail("wrong-request", "player %d: the callback is asked for %zu and %zu samples", p.id, l.size(), r->size());
	}
	const size_t n = std::min(p.left.size() - p.given, l.size());
	for (size_t i = 0; i < n; ++i) {
		l[i] = p.left[p.given + i];
		if (r) {
			(*r)[i] = p.right[p.given + i];
		}
	}
	p.given += n;
	p.ended = n != l.size();
	trace("player %d: callback gives %zu of %zu samples", p.id, n, l.size());
	return n;
}

void play(Player& p) {
	alsasim::player(p.id);
	try {
		heap::Scope scope;
		if (p.callback) {
			if (p.stereo) {
				PlayStereo(p.rate, [&p](dspbb::SignalView<float> l, dspbb::SignalView<float> r) { return fill(p, l, &r); });
			}
			else {
				PlayMono(p.rate, [&p](dspbb::SignalView<float> l) { return fill(p, l, nullptr); });
			}
		}
		else {
			dspbb::SignalView<float> l(p.left.data(), p.left.size());
			if (p.stereo) {
				dspbb::SignalView<float> r(p.right.data(), p.right.size());
				PlayStereo(p.rate, l, r);
			}
			else {
				PlayMono(p.rate, l);
			}
		}
	}
	catch (const std::bad_alloc&) {
		p.threw = p.outOfMemory = true;
		p.what = "out of memory";
	}
	catch (const RtAudioError& e) {
		p.threw = true;
		p.what = e.getMessage();
	}
	catch (const std::runtime_error& e) {
		p.threw = true;
		p.what = e.what();
	}
	p.returned = true;
	trace("player %d: %s %s", p.id, p.threw ? "reports:" : "done", p.what.c_str());
}

void check(Player& p, bool memoryFault) {
	char world[256];
	alsasim::describe(world, sizeof world);
	const bool faulty = alsasim::faultsBeforeStart(p.id) || memoryFault;
	if (const unsigned n = alsasim::openHandles(p.id)) {
		fail("handle-leak", "player %d: %u sound devices are still open after the call (%s)", p.id, n, world);
	}
	alsasim::Record* r = alsasim::record(p.id);
	if (p.threw) {
		count("event.playback_refused");
		if (p.what.find("buffer memory") != std::string::npos) {
			count("event.refused_for_lack_of_buffers");
		}
		if (!faulty && alsasim::playable()) {
			fail("refused", "player %d: refused with \"%s\" although nothing is wrong (%s)", p.id, p.what.c_str(), world);
		}
		if (p.calls || (r && !r->offered.empty())) {
			fail("refused", "player %d: refused with \"%s\" after playing has begun (%s)", p.id, p.what.c_str(), world);
		}
		return;
	}
	if (!r) {
		fail("silent", "player %d: the call returns as if it had played, but no device was ever set up (%s)", p.id, world);
	}
	const size_t n = p.left.size();
	const std::vector<float>& right = p.stereo ? p.right : p.left;
	if (r->offered.size() < n) {
		fail("lost", "player %d: only %zu of %zu samples were presented to the device (%s)", p.id, r->offered.size(), n, world);
	}
	for (size_t i = 0; i < r->offered.size() && !r->garbled; ++i) {
		const auto& f = r->offered[i];
		const float l = i < n ? p.left[i] : 0.f, rt = i < n ? right[i] : 0.f;
		const float tol = f.exact ? 0.f : 1.01f * f.step + 1e-7f;
		if (!(std::abs(f.left - l) <= tol && std::abs(f.right - rt) <= tol)) {
			fail("wrong-sample", "player %d: frame %zu of %zu is (%.9g, %.9g), expected (%.9g, %.9g) (%s)", p.id, i, n, f.left, f.right, l, rt, world);
		}
	}
	if (r->offered.size() - n > 2 * size_t(r->period)) {
		fail("surplus", "player %d: %zu frames were presented for a signal of %zu with periods of %u (%s)", p.id, r->offered.size(), n, r->period, world);
	}
	if (r->junk && !r->garbled) {
		fail("junk", "player %d: something was played on channels that do not belong to the stream (%s)", p.id, world);
	}
	if (r->notRecovered && !r->broken) {
		fail("not-recovered", "player %d: %u times samples were written to a device that had run dry and was not prepared again (%s)", p.id, r->notRecovered, world);
	}
	// What the loudspeaker played: the accepted frames, in order, each once.
	size_t k = 0;
	for (uint32_t i = 0; i < r->offered.size(); ++i) {
		if (!r->taken[i]) {
			continue;
		}
		if (k >= r->heard.size()) {
			if (r->broken || r->drainFailed) {
				break;
			}
			fail("cut-off", "player %d: the call is over, but only %zu of the frames the device accepted were played; frame %u was cut off (%s)", p.id, k, i, world);
		}
		if (r->heard[k] != i) {
			if (r->broken || r->drainFailed) {
				break;
			}
			fail("cut-off", "player %d: frame %u was heard where frame %u belongs (%s)", p.id, r->heard[k], i, world);
		}
		++k;
	}
	if (!r->writesFailed && !r->underruns && !r->shortWrites && !r->broken && !r->drainFailed && k < n) {
		fail("cut-off", "player %d: nothing failed, but only %zu of %zu samples were played (%s)", p.id, k, n, world);
	}
	count("frames_played", k);
	if (k == r->offered.size()) {
		count("event.played_to_the_end");
	}
}

void run(int) {
	heap::configure(drawHeap("heap"));
	alsasim::reset();
	std::set_terminate(onTerminate);
	std::cerr.setstate(std::ios::badbit); // warnings
	const uint32_t nPlayers = 1 + (draw(3, "players") == 2);
	std::vector<std::unique_ptr<Player>> players;
	Rng rng(draw(1 << 16, "content"));
	uint64_t sig = nPlayers;
	for (uint32_t k = 0; k < nPlayers; ++k) {
		players.push_back(std::make_unique<Player>());
		Player& p = *players.back();
		p.id = int(k);
		p.stereo = draw(2, "stereo");
		p.callback = draw(2, "callback");
		static const uint64_t rates[] = { 60, 6, 300, 1000, 8000, 44100, 48000 };
		p.rate = draw(2, "rate.kind") ? rates[draw(7, "rate")] : 1 + draw(2000, "rate.any");
		const size_t n = drawSize(0, p.rate < 20 ? 200 : 3000, "samples");
		for (size_t i = 0; i < n; ++i) {
			p.left.push_back(float(rng.sym()));
			p.right.push_back(float(rng.sym()));
		}
		sig = mix(sig, mix(n * 4 + p.stereo * 2 + p.callback, p.rate));
	}
	const bool memoryFault = nPlayers == 1 && draw(4, "fault") == 3;
	alsasim::onStart = armedForStart;
	if (memoryFault) {
		heap::armFault(1 + draw(60, "fault.at"), true, 256); // no room for large objects and buffers from here on
	}
	sched::Options so;
	so.races = false; // the sound layer's state flags are read and written without locks by design
	so.everyAccess = draw(2, "sched.mode") == 1;
	so.maxExp = so.everyAccess ? 4 + draw(10, "sched.exp") : 1 + draw(8, "sched.exp");
	so.maxSwitches = thorough ? 6000 : 3000;
	sched::begin(so);
	for (auto& p : players) {
		Player* q = p.get();
		sched::spawn([q] { play(*q); });
	}
	sched::run();
	const auto st = sched::end();
	const bool fired = memoryFault && heap::faultsFired();
	if (fired) {
		count("fault.alloc_failed", heap::faultsFired());
	}
	heap::disarmFault();
	for (auto& p : players) {
		check(*p, fired);
	}
	count("sched.points", st.points);
	count("sched.synchronisation_operations", st.sync);
	count("sched.blocked_on_lock", st.blocked);
	count("fault.preemption", st.preemptions);
	distinct("interleavings", st.signature);
	heap::checkIntegrity("after the run");
	const auto leak = heap::findLeaks();
	if (leak.blocks) {
		fail("leak", "%llu blocks (%llu bytes) are no longer reachable; the first has %zu bytes", (unsigned long long)leak.blocks, (unsigned long long)leak.bytes, leak.firstSize);
	}
	if (st.switches > 2) {
		nontrivial(mix(sig, st.signature));
	}
	char world[256];
	alsasim::describe(world, sizeof world);
	summary("%u players, first %s %s of %zu samples at %llu Hz; %s", nPlayers, players[0]->stereo ? "stereo" : "mono", players[0]->callback ? "callback" : "view", players[0]->left.size(),
			(unsigned long long)players[0]->rate, world);
}

} // namespace

const Workload sim::workload{ "C14", 1, run };
