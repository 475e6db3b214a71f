#include "alsa_sim.hpp"

#include "../sim/core.hpp"
#include "../sim/heap.hpp"

#include <alsa/asoundlib.h>
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <memory>
#include <unistd.h>

using namespace sim;
using namespace alsasim;

namespace {

// The sound system is not part of the library: its memory is its own.
struct Outside {
	int saved = heap::t_scope;
	Outside() { heap::t_scope = 0; }
	~Outside() { heap::t_scope = saved; }
};

struct Device {
	unsigned formats;   // bits: float, double, s32, s16, s8, s24 (in 4 bytes), s24 (in 3)
	unsigned chMin, chMax;
	bool interleaved, nonInterleaved, bigEndian, capture, lazyPrepare;
	unsigned periodMin, periodMax, periodKind, periodsMax;
};

struct World {
	bool hasDefault;
	unsigned cards;
	unsigned subs[3];
	Device dev;
	unsigned pConfig, pRun, pTime; // how often things go wrong, and how much time passes
	unsigned faults[8];
	std::vector<std::unique_ptr<sim_snd_pcm>> pcms;
	std::vector<std::unique_ptr<sim_snd_ctl>> ctls;
	Record* last[8];
};

World* w = nullptr;
__thread int me = 0;

} // namespace

struct sim_snd_ctl {
	int card, owner;
	bool open = true;
};

struct sim_snd_pcm {
	int owner, stream;
	bool open = true;
	snd_pcm_state_t state = SND_PCM_STATE_OPEN;
	sim_snd_hw hw{};
	sim_snd_sw sw{};
	std::vector<uint32_t> ring; // indices of frames waiting to be played
	Record rec;
};

namespace alsasim {

void (*onStart)(int id) = nullptr;

void player(int id) { me = id; }

void reset() {
	delete w;
	w = new World();
	w->hasDefault = draw(12, "alsa.default") != 11;
	w->cards = draw(3, "alsa.cards");
	for (auto& s : w->subs) {
		s = draw(3, "alsa.subdevices");
	}
	Device& d = w->dev;
	static const unsigned formatSets[] = { 1, 3, 31, 2, 4, 8, 16, 12, 24, 9, 32, 64, 96, 104 };
	d.formats = formatSets[draw(14, "alsa.formats")];
	static const unsigned mins[] = { 2, 1, 2, 4, 6, 8 };
	d.chMin = mins[draw(6, "alsa.channels")];
	d.chMax = d.chMin + draw(3, "alsa.channels.max");
	const unsigned access = draw(3, "alsa.access");
	d.interleaved = access != 1;
	d.nonInterleaved = access != 0;
	d.bigEndian = draw(6, "alsa.endian") == 5;
	d.capture = draw(2, "alsa.capture");
	d.lazyPrepare = draw(3, "alsa.prepare") == 2;
	d.periodMin = 1 + draw(64, "alsa.period.min");
	d.periodMax = d.periodMin + drawSize(0, 4000, "alsa.period.max");
	d.periodKind = draw(3, "alsa.period.kind");
	d.periodsMax = 1 + draw(8, "alsa.periods");
	w->pConfig = draw(3, "alsa.config.faults") == 2 ? 1 + draw(3, "alsa.config.rate") : 0;
	w->pRun = draw(3, "alsa.run.faults") == 2 ? 1 + draw(4, "alsa.run.rate") : 0;
	w->pTime = draw(4, "alsa.time");
}

Record* record(int id) { return w->last[id]; }

unsigned openHandles(int id) {
	unsigned n = 0;
	for (auto& p : w->pcms) {
		n += p->open && p->owner == id;
	}
	for (auto& c : w->ctls) {
		n += c->open && c->owner == id;
	}
	return n;
}

unsigned faultsBeforeStart(int id) { return w->faults[id]; }

bool playable() { return w->hasDefault && w->dev.chMax >= 2 && (w->dev.formats & 31); }

void describe(char* to, size_t n) {
	snprintf(to, n, "%s default device, %u cards, formats %#x, channels %u-%u, access %d%d, %s endian, periods %u-%u", w->hasDefault ? "a" : "no", w->cards, w->dev.formats, w->dev.chMin,
			 w->dev.chMax, w->dev.interleaved, w->dev.nonInterleaved, w->dev.bigEndian ? "big" : "little", w->dev.periodMin, w->dev.periodMax);
}

} // namespace alsasim

namespace {

// Should this call on the way to a running device fail?
int configFault(const char* what, int owner = -1) {
	if (w->pConfig && flip(w->pConfig, 60, "alsa.fault")) {
		static const int errs[] = { EBUSY, ENODEV, EIO, ENOMEM, EINVAL, EPERM };
		const int e = errs[draw(6, "alsa.errno")];
		++w->faults[owner < 0 ? me : owner];
		count("fault.sound_device_refused");
		trace("player %d: %s fails with %s", me, what, strerror(e));
		return -e;
	}
	return 0;
}

sim_snd_ctl* use(sim_snd_ctl* c, const char* what) {
	if (!c || !c->open) {
		fail("bad-handle", "%s on a control handle that is not open", what);
	}
	return c;
}
sim_snd_pcm* use(sim_snd_pcm* p, const char* what) {
	if (!p || !p->open) {
		fail("bad-handle", "%s on a device that is not open", what);
	}
	return p;
}

unsigned formatBit(int f) {
	switch (f) {
		case SND_PCM_FORMAT_FLOAT: return 1;
		case SND_PCM_FORMAT_FLOAT64: return 2;
		case SND_PCM_FORMAT_S32: return 4;
		case SND_PCM_FORMAT_S16: return 8;
		case SND_PCM_FORMAT_S8: return 16;
		case SND_PCM_FORMAT_S24: return 32;
		case SND_PCM_FORMAT_S24_3LE: return 64;
		default: return 0;
	}
}
unsigned formatSize(int f) {
	switch (f) {
		case SND_PCM_FORMAT_FLOAT: return 4;
		case SND_PCM_FORMAT_FLOAT64: return 8;
		case SND_PCM_FORMAT_S32: return 4;
		case SND_PCM_FORMAT_S24: return 4;
		case SND_PCM_FORMAT_S24_3LE: return 3;
		case SND_PCM_FORMAT_S16: return 2;
		default: return 1;
	}
}

double decode(const unsigned char* p, int f, bool swap) {
	unsigned char b[8];
	const unsigned n = formatSize(f);
	for (unsigned i = 0; i < n; ++i) {
		b[i] = swap && n > 1 ? p[n - 1 - i] : p[i];
	}
	switch (f) {
		case SND_PCM_FORMAT_FLOAT: { float v; memcpy(&v, b, 4); return v; }
		case SND_PCM_FORMAT_FLOAT64: { double v; memcpy(&v, b, 8); return v; }
		case SND_PCM_FORMAT_S32: { int32_t v; memcpy(&v, b, 4); return double(v) / 2147483648.0; }
		case SND_PCM_FORMAT_S24:
		case SND_PCM_FORMAT_S24_3LE: {
			const int32_t v = int32_t(uint32_t(b[0]) << 8 | uint32_t(b[1]) << 16 | uint32_t(b[2]) << 24) >> 8;
			return double(v) / 8388608.0;
		}
		case SND_PCM_FORMAT_S16: { int16_t v; memcpy(&v, b, 2); return double(v) / 32768.0; }
		default: return double(int8_t(b[0])) / 128.0;
	}
}

float stepOf(int f) {
	switch (f) {
		case SND_PCM_FORMAT_S24:
		case SND_PCM_FORMAT_S24_3LE:
		case SND_PCM_FORMAT_S32: return 1.0f / 4194304; // the application's samples have 24 bits
		case SND_PCM_FORMAT_S16: return 1.0f / 32768;
		case SND_PCM_FORMAT_S8: return 1.0f / 128;
		default: return 0;
	}
}

// The device plays what waits in its buffer.
void play(sim_snd_pcm* p, size_t n) {
	n = std::min(n, p->ring.size());
	p->rec.heard.insert(p->rec.heard.end(), p->ring.begin(), p->ring.begin() + ptrdiff_t(n));
	p->ring.erase(p->ring.begin(), p->ring.begin() + ptrdiff_t(n));
	samples(n);
}
size_t someTime(sim_snd_pcm* p) {
	const size_t size = size_t(p->hw.period) * p->hw.periods;
	switch (w->pTime) {
		case 0: return p->hw.period;
		case 1: return 1 + draw(p->hw.period, "alsa.played");
		case 2: return 1 + draw(size, "alsa.played");
		default: return draw(2, "alsa.stalled") ? 0 : 1 + draw(size, "alsa.played");
	}
}

} // namespace

extern "C" {

const char* snd_strerror(int e) { return strerror(-e); }
const char* snd_pcm_state_name(snd_pcm_state_t) { return "some state"; }

int snd_card_next(int* card) {
	*card = *card + 1 < int(w->cards) ? *card + 1 : -1;
	return 0;
}
int snd_card_get_name(int card, char** name) {
	char b[24];
	snprintf(b, sizeof b, "card%d", card);
	*name = strdup(b);
	return *name ? 0 : -ENOMEM;
}
int snd_ctl_open(snd_ctl_t** ctl, const char* name, int) {
	Outside o;
	int card = -1;
	if (strcmp(name, "default") == 0) {
		if (!w->hasDefault) {
			return -ENOENT;
		}
	}
	else if (sscanf(name, "hw:%d", &card) != 1 || card >= int(w->cards)) {
		return -ENOENT;
	}
	if (const int e = configFault("snd_ctl_open")) {
		return e;
	}
	w->ctls.push_back(std::make_unique<sim_snd_ctl>());
	w->ctls.back()->card = card;
	w->ctls.back()->owner = me;
	*ctl = w->ctls.back().get();
	return 0;
}
int snd_ctl_close(snd_ctl_t* c) {
	Outside o;
	use(c, "snd_ctl_close")->open = false;
	return 0;
}
int snd_ctl_pcm_next_device(snd_ctl_t* c, int* device) {
	Outside o;
	use(c, "snd_ctl_pcm_next_device");
	if (const int e = configFault("snd_ctl_pcm_next_device")) {
		return e;
	}
	*device = c->card >= 0 && *device + 1 < int(w->subs[c->card]) ? *device + 1 : -1;
	return 0;
}
int snd_ctl_pcm_info(snd_ctl_t* c, snd_pcm_info_t* i) {
	Outside o;
	use(c, "snd_ctl_pcm_info");
	if (i->stream == SND_PCM_STREAM_CAPTURE && !w->dev.capture) {
		return -ENOENT;
	}
	return configFault("snd_ctl_pcm_info");
}
void snd_pcm_info_set_stream(snd_pcm_info_t* i, snd_pcm_stream_t s) { i->stream = s; }
void snd_pcm_info_set_device(snd_pcm_info_t* i, unsigned d) { i->device = int(d); }
void snd_pcm_info_set_subdevice(snd_pcm_info_t* i, unsigned d) { i->subdevice = int(d); }

int snd_pcm_open(snd_pcm_t** pcm, const char* name, snd_pcm_stream_t stream, int) {
	Outside o;
	if (strcmp(name, "default") == 0 && !w->hasDefault) {
		return -ENOENT;
	}
	if (stream == SND_PCM_STREAM_CAPTURE && !w->dev.capture) {
		return -ENOENT;
	}
	if (const int e = configFault("snd_pcm_open")) {
		return e;
	}
	w->pcms.push_back(std::make_unique<sim_snd_pcm>());
	auto* p = w->pcms.back().get();
	p->owner = me;
	p->stream = stream;
	*pcm = p;
	return 0;
}
int snd_pcm_close(snd_pcm_t* p) {
	Outside o;
	use(p, "snd_pcm_close")->open = false;
	p->rec.open = false;
	trace("player %d: device closed with %zu frames still in its buffer", p->owner, p->ring.size());
	p->ring.clear(); // closing is immediate
	return 0;
}
int snd_pcm_hw_params_any(snd_pcm_t* p, snd_pcm_hw_params_t* h) {
	Outside o;
	use(p, "snd_pcm_hw_params_any");
	*h = sim_snd_hw{};
	h->pcm = p;
	return configFault("snd_pcm_hw_params_any");
}
int snd_pcm_hw_params_set_access(snd_pcm_t* p, snd_pcm_hw_params_t* h, snd_pcm_access_t a) {
	Outside o;
	use(p, "snd_pcm_hw_params_set_access");
	if (!(a == SND_PCM_ACCESS_RW_INTERLEAVED ? w->dev.interleaved : w->dev.nonInterleaved)) {
		return -EINVAL;
	}
	h->access = a;
	return 0;
}
int snd_pcm_hw_params_test_format(snd_pcm_t* p, snd_pcm_hw_params_t*, snd_pcm_format_t f) {
	Outside o;
	use(p, "snd_pcm_hw_params_test_format");
	return w->dev.formats & formatBit(f) ? 0 : -EINVAL;
}
int snd_pcm_hw_params_set_format(snd_pcm_t* p, snd_pcm_hw_params_t* h, snd_pcm_format_t f) {
	Outside o;
	use(p, "snd_pcm_hw_params_set_format");
	if (!(w->dev.formats & formatBit(f))) {
		return -EINVAL;
	}
	h->format = f;
	return configFault("snd_pcm_hw_params_set_format");
}
int snd_pcm_format_cpu_endian(snd_pcm_format_t f) { return f == SND_PCM_FORMAT_UNKNOWN ? -EINVAL : f == SND_PCM_FORMAT_S24_3LE || !w->dev.bigEndian; }
int snd_pcm_hw_params_test_rate(snd_pcm_t* p, snd_pcm_hw_params_t*, unsigned, int) {
	Outside o;
	use(p, "snd_pcm_hw_params_test_rate");
	return 0;
}
int snd_pcm_hw_params_set_rate_near(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned* r, int*) {
	Outside o;
	use(p, "snd_pcm_hw_params_set_rate_near");
	h->rate = *r;
	return configFault("snd_pcm_hw_params_set_rate_near");
}
int snd_pcm_hw_params_get_channels_max(const snd_pcm_hw_params_t* h, unsigned* v) {
	Outside o;
	*v = w->dev.chMax;
	return configFault("snd_pcm_hw_params_get_channels_max");
}
int snd_pcm_hw_params_get_channels_min(const snd_pcm_hw_params_t* h, unsigned* v) {
	Outside o;
	*v = w->dev.chMin;
	return configFault("snd_pcm_hw_params_get_channels_min");
}
int snd_pcm_hw_params_set_channels(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned v) {
	Outside o;
	use(p, "snd_pcm_hw_params_set_channels");
	if (v < w->dev.chMin || v > w->dev.chMax) {
		return -EINVAL;
	}
	h->channels = v;
	return configFault("snd_pcm_hw_params_set_channels");
}
int snd_pcm_hw_params_set_period_size_near(snd_pcm_t* p, snd_pcm_hw_params_t* h, snd_pcm_uframes_t* v, int*) {
	Outside o;
	use(p, "snd_pcm_hw_params_set_period_size_near");
	unsigned long n = std::max<unsigned long>(*v, 1);
	if (w->dev.periodKind == 1) {
		n = (n + 15) / 16 * 16;
	}
	else if (w->dev.periodKind == 2) {
		unsigned long q = 1;
		while (q < n) {
			q *= 2;
		}
		n = q;
	}
	n = std::min<unsigned long>(std::max<unsigned long>(n, w->dev.periodMin), w->dev.periodMax);
	*v = h->period = n;
	return configFault("snd_pcm_hw_params_set_period_size_near");
}
int snd_pcm_hw_params_set_periods_near(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned* v, int*) {
	Outside o;
	use(p, "snd_pcm_hw_params_set_periods_near");
	*v = h->periods = std::min(*v, std::max(2u, w->dev.periodsMax));
	return configFault("snd_pcm_hw_params_set_periods_near");
}
int snd_pcm_hw_params(snd_pcm_t* p, snd_pcm_hw_params_t* h) {
	Outside o;
	use(p, "snd_pcm_hw_params");
	if (const int e = configFault("snd_pcm_hw_params")) {
		return e;
	}
	p->hw = *h;
	p->state = w->dev.lazyPrepare ? SND_PCM_STATE_SETUP : SND_PCM_STATE_PREPARED;
	p->rec.period = unsigned(h->period);
	if (p->stream == SND_PCM_STREAM_PLAYBACK) {
		w->last[p->owner] = &p->rec;
	}
	trace("player %d: device configured for %u channels, format %d, access %d, %u periods of %lu frames", p->owner, h->channels, h->format, h->access, h->periods, h->period);
	return 0;
}
int snd_pcm_sw_params_current(snd_pcm_t* p, snd_pcm_sw_params_t* s) {
	Outside o;
	*s = use(p, "snd_pcm_sw_params_current")->sw;
	return 0;
}
int snd_pcm_sw_params_set_start_threshold(snd_pcm_t*, snd_pcm_sw_params_t* s, snd_pcm_uframes_t v) { s->start = v; return 0; }
int snd_pcm_sw_params_set_stop_threshold(snd_pcm_t*, snd_pcm_sw_params_t* s, snd_pcm_uframes_t v) { s->stop = v; return 0; }
int snd_pcm_sw_params_set_silence_threshold(snd_pcm_t*, snd_pcm_sw_params_t*, snd_pcm_uframes_t) { return 0; }
int snd_pcm_sw_params_set_silence_size(snd_pcm_t*, snd_pcm_sw_params_t* s, snd_pcm_uframes_t v) { s->silence = v; return 0; }
int snd_pcm_sw_params_get_boundary(const snd_pcm_sw_params_t*, snd_pcm_uframes_t* v) { *v = 1ul << 62; return 0; }
int snd_pcm_sw_params(snd_pcm_t* p, snd_pcm_sw_params_t* s) {
	Outside o;
	use(p, "snd_pcm_sw_params");
	if (const int e = configFault("snd_pcm_sw_params")) {
		return e;
	}
	p->sw = *s;
	return 0;
}
snd_pcm_state_t snd_pcm_state(snd_pcm_t* p) {
	Outside o;
	use(p, "snd_pcm_state");
	if (!p->rec.started && onStart) {
		p->rec.started = true;
		onStart(p->owner);
	}
	return p->state;
}
int snd_pcm_prepare(snd_pcm_t* p) {
	Outside o;
	use(p, "snd_pcm_prepare");
	if (p->rec.broken) {
		return -ENODEV;
	}
	if (p->rec.offered.empty()) {
		if (const int e = configFault("snd_pcm_prepare", p->owner)) {
			return e;
		}
	}
	p->state = SND_PCM_STATE_PREPARED;
	return 0;
}
int snd_pcm_drop(snd_pcm_t* p) {
	Outside o;
	use(p, "snd_pcm_drop");
	trace("player %d: device drops %zu frames", p->owner, p->ring.size());
	p->ring.clear();
	p->state = SND_PCM_STATE_SETUP;
	return 0;
}
int snd_pcm_drain(snd_pcm_t* p) {
	Outside o;
	use(p, "snd_pcm_drain");
	if (p->rec.broken || (w->pRun && flip(w->pRun, 24, "alsa.drain.fault"))) {
		count("fault.sound_drain_failed");
		p->rec.drainFailed = true;
		trace("player %d: draining fails", p->owner);
		return p->rec.broken ? -ENODEV : -EIO;
	}
	p->state = SND_PCM_STATE_DRAINING;
	unsigned idle = 0;
	while (!p->ring.empty()) {
		usleep(1000);
		const size_t n = idle > 40 ? p->hw.period : someTime(p);
		idle = n ? 0 : idle + 1;
		play(p, n);
	}
	p->state = SND_PCM_STATE_SETUP;
	trace("player %d: drained", p->owner);
	return 0;
}
int snd_pcm_link(snd_pcm_t*, snd_pcm_t*) { return -ENOSYS; }
int snd_pcm_delay(snd_pcm_t* p, snd_pcm_sframes_t* n) {
	Outside o;
	*n = long(use(p, "snd_pcm_delay")->ring.size());
	return p->rec.broken ? -ENODEV : 0;
}

static snd_pcm_sframes_t present(snd_pcm_t* p, const void* data, void** planes, snd_pcm_uframes_t n) {
	Outside o;
	use(p, "write");
	if (p->state != SND_PCM_STATE_PREPARED && p->state != SND_PCM_STATE_RUNNING && p->state != SND_PCM_STATE_XRUN && !p->rec.broken) {
		fail("wrong-state", "player %d writes to a device in state %d", p->owner, int(p->state));
	}
	if ((planes != nullptr) != (p->hw.access == SND_PCM_ACCESS_RW_NONINTERLEAVED)) {
		fail("wrong-access", "player %d writes %s samples to a device set up otherwise", p->owner, planes ? "separate" : "interleaved");
	}
	// What is presented.
	const unsigned ch = p->hw.channels;
	int format = p->hw.format;
	if (format == SND_PCM_FORMAT_S24 && n) {
		// Samples of four bytes each; are there as many bytes?
		const auto* start = static_cast<const unsigned char*>(planes ? planes[ch - 1] : data);
		const size_t bytes = n * 4 * (planes ? 1 : ch);
		uintptr_t base;
		size_t extent;
		int owner;
		if (!heap::blockAt(start, base, extent, owner)) {
			error("the samples are not in a block");
		}
		if (uintptr_t(start) + bytes > base + extent) {
			finding("packed-24-bit", "player %d presents %lu frames of 24-bit samples in four bytes each, but has only three bytes for each", p->owner, n);
			format = SND_PCM_FORMAT_S24_3LE;
			p->rec.garbled |= w->dev.bigEndian;
		}
	}
	const unsigned size = formatSize(format);
	const size_t first = p->rec.offered.size();
	for (size_t i = 0; i < n; ++i) {
		double v[2] = { 0, 0 };
		for (unsigned c = 0; c < ch; ++c) {
			const auto* at = planes ? static_cast<const unsigned char*>(planes[c]) + i * size : static_cast<const unsigned char*>(data) + (i * ch + c) * size;
			const double x = decode(at, format, w->dev.bigEndian && size > 1 && format != SND_PCM_FORMAT_S24_3LE);
			if (c < 2) {
				v[c] = x;
			}
			else if (std::abs(x) > stepOf(p->hw.format)) {
				p->rec.junk = true;
			}
		}
		const float st = stepOf(p->hw.format);
		p->rec.offered.push_back({ float(v[0]), float(v[1]), st == 0, st });
		p->rec.taken.push_back(0);
	}
	trace("player %d: writes %lu frames from %zu", p->owner, n, first);
	if (p->rec.broken) {
		++p->rec.writesFailed;
		return -ENODEV;
	}
	if (p->state == SND_PCM_STATE_XRUN) {
		++p->rec.writesFailed;
		++p->rec.notRecovered;
		return -EPIPE;
	}
	size_t want = n;
	int result = 0;
	if (w->pRun && flip(w->pRun, 24, "alsa.write.fault")) {
		switch (draw(5, "alsa.write.kind")) {
			case 0: {
				count("fault.sound_underrun");
				++p->rec.underruns;
				play(p, p->ring.size());
				p->state = SND_PCM_STATE_XRUN;
				trace("player %d: underrun", p->owner);
				return -EPIPE;
			}
			case 1: result = -EIO; break;
			case 2: result = -EAGAIN; break;
			case 3:
				want = draw(n, "alsa.write.short");
				count("fault.sound_short_write");
				++p->rec.shortWrites;
				break;
			default:
				if (draw(2, "alsa.gone")) {
					result = -ENODEV;
					p->rec.broken = true;
					p->ring.clear();
					count("fault.sound_device_gone");
				}
				else {
					result = -EIO;
				}
		}
		if (result) {
			count("fault.sound_write_failed");
			++p->rec.writesFailed;
			trace("player %d: the write fails with %s", p->owner, strerror(-result));
			return result;
		}
	}
	const size_t size0 = size_t(p->hw.period) * p->hw.periods;
	size_t done = 0;
	unsigned idle = 0;
	while (done < want) {
		if (p->ring.size() >= size0) {
			// The buffer is full: wait while the device plays.
			usleep(1000);
			const size_t t = idle > 40 ? p->hw.period : someTime(p);
			idle = t ? 0 : idle + 1;
			play(p, t);
			continue;
		}
		p->rec.taken[first + done] = 1;
		p->ring.push_back(uint32_t(first + done));
		++done;
	}
	if (p->state == SND_PCM_STATE_PREPARED && p->ring.size() >= p->sw.start) {
		p->state = SND_PCM_STATE_RUNNING;
	}
	if (w->pTime && p->state == SND_PCM_STATE_RUNNING) {
		play(p, draw(2, "alsa.elapsed") ? someTime(p) : 0);
	}
	return snd_pcm_sframes_t(done);
}
snd_pcm_sframes_t snd_pcm_writei(snd_pcm_t* p, const void* d, snd_pcm_uframes_t n) { return present(p, d, nullptr, n); }
snd_pcm_sframes_t snd_pcm_writen(snd_pcm_t* p, void** d, snd_pcm_uframes_t n) { return present(p, nullptr, d, n); }
snd_pcm_sframes_t snd_pcm_readi(snd_pcm_t*, void*, snd_pcm_uframes_t) { return -EIO; }
snd_pcm_sframes_t snd_pcm_readn(snd_pcm_t*, void**, snd_pcm_uframes_t) { return -EIO; }

} // extern "C"
