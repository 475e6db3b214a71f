// Registry and runtime of the operation catalogue.
#include "ops.hpp"

#include "../sim/alone.hpp"

#include <algorithm>
#include <new>
#include <sys/mman.h>
#include <typeinfo>

namespace ops {

const void* volatile g_roots[4096];
static size_t g_nRoots = 0;

void root(const void* p) {
	if (g_nRoots >= 4096) {
		error("too many objects");
	}
	g_roots[g_nRoots++] = p;
}

namespace overlay {
	static unsigned char* base() {
		static unsigned char* const p = [] {
			void* m = mmap(nullptr, SLOTS * (SLOT + OBJ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (m == MAP_FAILED) {
				error("mmap");
			}
			return static_cast<unsigned char*>(m);
		}();
		return p;
	}
	// Neither inputs nor objects need the alignment of a page.
	void* input(size_t k, size_t bytes) { return k < SLOTS && bytes <= SLOT - 64 ? base() + k * SLOT + 16 * (k % 3) : nullptr; }
	void* object(size_t k, size_t bytes) { return k < SLOTS && bytes <= OBJ ? base() + SLOTS * SLOT + k * OBJ : nullptr; }
	void protect(bool readOnly) { mprotect(base(), SLOTS * SLOT, readOnly ? PROT_READ : PROT_READ | PROT_WRITE); }
} // namespace overlay

void enter(const Op& op) {
	if (op.turn) {
		overlay::protect(false);
		for (auto& [p, bytes] : op.turn->inputs) {
			std::copy(bytes.begin(), bytes.end(), p);
		}
		overlay::protect(true);
		for (auto& f : op.turn->enter) {
			f();
		}
	}
}
void leave(const Op& op) {
	if (op.turn) {
		for (size_t i = op.turn->leave.size(); i-- > 0;) {
			op.turn->leave[i]();
		}
	}
}

static std::vector<Entry>& mutableCatalogue() {
	static std::vector<Entry> v;
	return v;
}
Reg::Reg(const char* name, std::function<Exec(Mk&)> make, unsigned weight) {
	mutableCatalogue().push_back({ name, std::move(make), weight });
}
const std::vector<Entry>& catalogue() {
	auto& v = mutableCatalogue();
	static bool sorted = false;
	if (!sorted) {
		std::sort(v.begin(), v.end(), [](const Entry& a, const Entry& b) { return strcmp(a.name, b.name) < 0; });
		for (size_t i = 1; i < v.size(); ++i) {
			if (!strcmp(v[i - 1].name, v[i].name)) {
				error("operation %s registered twice", v[i].name);
			}
		}
		sorted = true;
	}
	return v;
}

static uint32_t drawEntry() {
	const auto& c = catalogue();
	static std::vector<uint32_t> wheel;
	if (wheel.empty()) {
		for (uint32_t i = 0; i < c.size(); ++i) {
			for (unsigned k = 0; k < c[i].weight; ++k) {
				wheel.push_back(i);
			}
		}
	}
	return wheel[draw(wheel.size(), "op")];
}

std::vector<Spec> drawSpecs(uint32_t n, uint32_t maxScale) {
	std::vector<Spec> v;
	const uint32_t focus = draw(3, "focus"); // 2: everything is related to the first operation
	const uint32_t same = focus == 2 ? draw(512, "focus.at") : 0; // half the time in the same parameter
	for (uint32_t i = 0; i < n; ++i) {
		Spec s{};
		const uint32_t rel = v.empty() ? 0 : focus == 2 ? 3 : draw(4, "op.related");
		if (rel >= 2) {
			// Like an earlier one, in all but one parameter.
			s = v[focus == 2 ? 0 : draw(uint32_t(v.size()), "op.base")];
			s.tweakAt = same >= 256 ? int(same - 256) : int(draw(256, "op.tweak.at"));
			s.tweak = draw(1 << 10, "op.tweak");
		}
		else if (rel == 1) {
			// The same operation with other parameters.
			s = v[draw(uint32_t(v.size()), "op.base")];
			s.seed = draw(1 << 20, "op.seed");
			s.tweakAt = -1;
		}
		else {
			s.entry = drawEntry();
			s.seed = draw(1 << 20, "op.seed");
			const uint32_t k = draw(16, "op.scale");
			s.scale = std::min<uint32_t>(maxScale, k < 5 ? 0 : k < 11 ? 1 : k < 15 ? 2 : 3);
			s.tweakAt = -1;
		}
		v.push_back(s);
	}
	return v;
}

std::vector<Spec> drawVariations(uint32_t n, uint32_t maxScale) {
	std::vector<Spec> v;
	const uint32_t bases = 1 + (draw(4, "bases") == 3);
	const bool chain = draw(3, "chain") == 2;                     // each differs from the one before, not from the first
	const uint32_t same = draw(512, "focus.at"), seed = draw(1 << 20, "op.seed");
	for (uint32_t i = 0; i < n; ++i) {
		Spec s{};
		if (i < bases) {
			s.entry = i && draw(2, "op.same") ? v[0].entry : drawEntry();
			s.seed = i ? draw(1 << 20, "op.seed") : seed;
			s.scale = std::min<uint32_t>(maxScale, draw(3, "op.scale"));
			s.tweakAt = -1;
		}
		else {
			s = v[chain ? i - 1 : draw(bases, "op.base")];
			s.tweakAt = same >= 256 ? int(same - 256) : int(draw(256, "op.tweak.at"));
			s.tweak = draw(1 << 10, "op.tweak");
		}
		v.push_back(s);
	}
	return v;
}

Op build(const Spec& s, uint64_t place, bool overlaid) {
	const Entry& e = catalogue()[s.entry];
	int tweakAt = s.tweakAt;
	if (tweakAt >= 0) {
		// One of the parameters that exist.
		Mk count(s.seed, -1, 0, s.scale, place);
		e.make(count);
		tweakAt = count.tweaked(uint32_t(tweakAt));
	}
	std::shared_ptr<Turn> turn;
	if (overlaid) {
		turn = std::make_shared<Turn>();
		overlay::protect(false);
	}
	const uint32_t tweak = s.tweakAt >= 64 ? s.tweak | 1 : s.tweak; // a change of this kind, not another draw
	Mk mk(s.seed, tweakAt, tweak, s.scale, place, turn.get());
	Op op;
	op.turn = turn;
	op.name = e.name;
	op.entry = s.entry;
	op.seed = s.seed;
	op.tweak = tweak;
	op.tweakAt = tweakAt;
	op.scale = s.scale;
	// Variations mostly make the same calls as what they vary.
	const uint64_t h = s.tweakAt >= 0 && s.tweak % 8 == 7 ? mix(s.tweak, 0xCA11) : mix(s.seed, 0xCA11);
	switch (h % 4) {
		case 2: op.mask = mix(h, 1); break;
		case 3: op.mask = uint64_t(1) << (h / 4 % 8); break;
		default: break;
	}
	op.exec = e.make(mk);
	op.checks = std::move(mk.checks());
	Sink k;
	for (auto& c : op.checks) {
		c(k);
	}
	op.inputs = std::move(k.bytes);
	leave(op);
	if (shm->tracing) {
		trace("instance: %s", describe(op).c_str());
	}
	return op;
}

std::string describe(const Op& op) {
	char b[160];
	if (op.tweakAt >= 0) {
		snprintf(b, sizeof b, "%s [parameters %u, scale %u, parameter %d from %u]", op.name, op.seed, op.scale, op.tweakAt, op.tweak);
	}
	else {
		snprintf(b, sizeof b, "%s [parameters %u, scale %u]", op.name, op.seed, op.scale);
	}
	return b;
}

std::vector<unsigned char> exec(const Op& op, uint64_t place) {
	Ex ex(place, op.mask);
	try {
		op.exec(ex);
	}
	catch (const std::bad_alloc&) {
		throw;
	}
	catch (const std::exception& e) {
		ex.result.bytes.clear();
		const char* n = typeid(e).name();
		ex.result.raw("exception ", 10);
		ex.result.raw(n, strlen(n));
		ex.result.raw("\n", 1);
		ex.result.raw(e.what(), strlen(e.what()));
		count("event.operation_rejected_parameters");
	}
	return std::move(ex.result.bytes);
}

void checkInputs(const Op& op, const char* when) {
	Sink k;
	for (auto& c : op.checks) {
		c(k);
	}
	if (k.bytes != op.inputs) {
		fail("input-modified", "%s: an object passed to %s by const reference has changed", when, describe(op).c_str());
	}
}

bool sameRejection(const Op& op, const std::vector<unsigned char>& r) {
	const auto isException = [](const unsigned char* p, size_t n) { return n > 10 && !memcmp(p, "exception ", 10); };
	const auto type = [](const unsigned char* p, size_t n) {
		const std::string s(reinterpret_cast<const char*>(p), n);
		return s.substr(0, s.find('\n'));
	};
	const unsigned char* alone = shm->board + op.solo;
	return op.soloLen != ~size_t(0) && isException(r.data(), r.size()) && isException(alone, op.soloLen) && type(r.data(), r.size()) == type(alone, op.soloLen);
}

void compare(const Op& op, const std::vector<unsigned char>& r, const char* cls, const char* when, const char* reference) {
	ev(r.size());
	if (op.soloLen == ~size_t(0)) {
		return;
	}
	if (r.size() == op.soloLen && memcmp(r.data(), shm->board + op.solo, r.size()) == 0) {
		return;
	}
	size_t at = 0;
	while (at < r.size() && at < op.soloLen && r[at] == shm->board[op.solo + at]) {
		++at;
	}
	auto text = [](const unsigned char* p, size_t n) {
		std::string s(reinterpret_cast<const char*>(p), n < 100 ? n : 100);
		std::replace(s.begin(), s.end(), '\n', ' ');
		return s;
	};
	std::string got, want;
	if (r.size() > 10 && !memcmp(r.data(), "exception ", 10)) {
		got = "; now: " + text(r.data(), r.size());
	}
	if (op.soloLen > 10 && !memcmp(shm->board + op.solo, "exception ", 10)) {
		want = "; alone: " + text(shm->board + op.solo, op.soloLen);
	}
	if (at / 8 * 8 + 8 <= r.size() && at / 8 * 8 + 8 <= op.soloLen) {
		double a, b;
		float fa, fb;
		memcpy(&a, r.data() + at / 8 * 8, 8);
		memcpy(&b, shm->board + op.solo + at / 8 * 8, 8);
		memcpy(&fa, r.data() + at / 4 * 4, 4);
		memcpy(&fb, shm->board + op.solo + at / 4 * 4, 4);
		char m[160];
		snprintf(m, sizeof m, " (as double %.17g instead of %.17g, as float %.9g instead of %.9g)", a, b, double(fa), double(fb));
		got += m;
	}
	fail(cls, "%s: %s returns %zu bytes that differ from the same call %s (%zu bytes) at byte %zu%s%s", when, describe(op).c_str(), r.size(), reference, op.soloLen, at, got.c_str(),
		 want.c_str());
}

void boardResult(const std::vector<unsigned char>& r, uint64_t allocs) {
	uint64_t head[2] = { r.size(), allocs };
	if (shm->boardLen + r.size() + 4096 > BOARD_BYTES) {
		head[0] = ~0ull;
		boardPut(head, sizeof head);
	}
	else {
		boardPut(head, sizeof head);
		boardPut(r.data(), r.size());
	}
}

void solo(const std::vector<Spec>& specs) {
	for (auto& s : specs) {
		alone([&] {
			Op op = build(s, 1);
			heap::resetCount();
			const auto r = exec(op, 2);
			boardResult(r, heap::allocCount());
		});
	}
}

void readSolo(std::vector<Op>& v) {
	size_t at = 0;
	for (auto& op : v) {
		uint64_t head[2];
		memcpy(head, shm->board + at, sizeof head);
		op.solo = at + sizeof head;
		op.soloLen = head[0];
		op.soloAllocs = head[1];
		at = op.solo + (op.soloLen == ~size_t(0) ? 0 : op.soloLen);
	}
}

} // namespace ops
