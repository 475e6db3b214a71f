// C15: loading a sound file yields exactly the samples in the file, or an error.
#include "../examples/Tools/LoadSound.hpp"

#include "../sim/core.hpp"
#include "../sim/heap.hpp"
#include "../sim/util.hpp"

#include <csignal>
#include <map>
#include <memory>
#include <sndfile.hh>
#include <stdexcept>
#include <vector>

using namespace sim;

namespace {
struct Outside {
	int saved = heap::t_scope;
	Outside() { heap::t_scope = 0; }
	~Outside() { heap::t_scope = saved; }
};

struct Content {
	bool opens;          // or the file cannot be opened
	int64_t frames;      // what the header says
	int channels, rate;
	std::vector<float> data; // what is there, interleaved
	size_t readable;     // items that can be read before the medium fails, or the file ends
	size_t given = 0;    // items handed out through the last handle
};
std::map<std::string, Content>* disk;
uint64_t openFiles = 0;
const Content* loading = nullptr;

void onAbort(int) {
	heap::disarmFault();
	if (loading && loading->channels == 2 && loading->frames == 0) {
		fail("empty-file-aborts", "loading a stereo file without frames aborts");
	}
	fail("abort", "loading a file of %lld frames and %d channels aborts", loading ? (long long)loading->frames : 0, loading ? loading->channels : 0);
}
} // namespace

struct sndsim::File {
	Content* c;
	size_t at = 0;
	int error = 0;
	bool open = true;
};
static std::vector<std::unique_ptr<sndsim::File>>* files;

namespace sndsim {

static File* use(File* f, const char* what) {
	if (!f || !f->open) {
		fail("bad-handle", "%s on a file that is not open", what);
	}
	return f;
}
static const File* use(const File* f, const char* what) { return use(const_cast<File*>(f), what); }

File* open(const char* path) {
	Outside o;
	const auto it = disk->find(path);
	if (it == disk->end() || !it->second.opens) {
		trace("opening %s fails", path);
		count("fault.file_cannot_be_opened");
		return nullptr;
	}
	files->push_back(std::make_unique<File>());
	File* f = files->back().get();
	f->c = &it->second;
	f->c->given = 0;
	++openFiles;
	return f;
}
void close(File* f) {
	Outside o;
	if (f) {
		use(f, "close")->open = false;
		--openFiles;
	}
}
sf_count_t frames(const File* f) { return use(f, "frames")->c->frames; }
int channels(const File* f) { return use(f, "channels")->c->channels; }
int samplerate(const File* f) { return use(f, "samplerate")->c->rate; }
int error(const File* f) { return use(f, "error")->error; }
sf_count_t seek(File* f, sf_count_t frame, int whence) {
	use(f, "seek");
	const int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? int64_t(f->at) / f->c->channels : f->c->frames;
	if (base + frame < 0 || base + frame > f->c->frames) {
		return -1;
	}
	f->at = size_t(base + frame) * size_t(f->c->channels);
	return base + frame;
}
sf_count_t read(File* f, void* to, sf_count_t items, int kind) {
	Outside o;
	use(f, "read");
	if (items < 0 || items % f->c->channels != 0) {
		f->error = 1;
		return 0;
	}
	sf_count_t n = 0;
	while (n < items && f->at < f->c->readable) {
		const float v = f->c->data[f->at++];
		switch (kind) {
			case 0: static_cast<float*>(to)[n] = v; break;
			case 1: static_cast<double*>(to)[n] = double(v); break;
			case 2: static_cast<short*>(to)[n] = short(v * 32767.f); break;
			default: static_cast<int*>(to)[n] = int(v * 2147483000.f);
		}
		++n;
	}
	f->c->given = std::max(f->c->given, f->at);
	if (n < items) {
		f->error = f->at < f->c->data.size();
		count(f->error ? "fault.read_failed" : "fault.file_truncated");
	}
	trace("read of %lld items gives %lld", (long long)items, (long long)n);
	return n;
}

} // namespace sndsim

namespace {

void run(int) {
	heap::configure(drawHeap("heap"));
	signal(SIGABRT, onAbort);
	disk = new std::map<std::string, Content>();
	files = new std::vector<std::unique_ptr<sndsim::File>>();
	const uint32_t nFiles = range(1, 3, "files");
	std::vector<std::string> names;
	for (uint32_t k = 0; k < nFiles; ++k) {
		Content c;
		c.opens = !flip(1, 8, "missing");
		c.channels = flip(1, 6, "channels.odd") ? int(1 + 2 * draw(4, "channels")) : 2;
		c.rate = int(1 + draw(192000, "rate"));
		const size_t n = flip(1, 24, "no.frames") ? 0 : drawSize(1, thorough ? 60000 : 6000, "frames");
		Rng rng(draw(1 << 16, "content"));
		for (size_t i = 0; i < n * size_t(c.channels); ++i) {
			c.data.push_back(float(rng.sym()));
		}
		c.frames = int64_t(n);
		c.readable = c.data.size();
		switch (draw(8, "damage")) {
			case 5: // the medium fails, in the middle of a frame or between two
				c.readable = draw(c.data.size() + 1, "damage.at");
				break;
			case 6: // the header promises more than there is
				c.frames += draw(2, "truncated.by") ? int64_t(draw(400, "truncated.frames")) : int64_t(n);
				break;
			case 7: // the length is not known: libsndfile says the largest number
				if (draw(4, "unknown.length") == 3) {
					c.frames = INT64_MAX;
				}
				break;
			default: break;
		}
		names.push_back("recording-with-a-rather-long-name-" + std::to_string(k) + ".wav");
		(*disk)[names.back()] = std::move(c);
	}
	const uint32_t calls = range(1, 5, "calls");
	uint64_t sig = nFiles;
	for (uint32_t i = 0; i < calls; ++i) {
		const uint32_t k = draw(nFiles, "file");
		const std::string& name = names[k];
		Content& c = (*disk)[name];
		c.given = 0;
		const bool fault = draw(3, "fault") == 2;
		if (fault) {
			heap::armFault(1 + draw(8, "fault.at"), draw(2, "fault.persistent"), 0);
		}
		loading = &c;
		const char* refused = nullptr;
		{
			std::unique_ptr<StereoSound> s;
			try {
				heap::Scope scope;
				const std::filesystem::path path(name);
				StereoSound loaded = LoadStereoSound(path);
				Outside o;
				s = std::make_unique<StereoSound>(std::move(loaded));
			}
			catch (const std::bad_alloc&) {
				refused = "out of memory";
			}
			catch (const std::length_error&) {
				refused = "too long";
			}
			catch (const std::runtime_error&) {
				refused = "an error";
			}
			loading = nullptr;
			const uint64_t fired = fault ? heap::faultsFired() : 0;
			heap::disarmFault();
			if (fired) {
				count("fault.alloc_failed", fired);
			}
			if (openFiles) {
				fail("file-left-open", "call %u: the file is still open after loading", i + 1);
			}
			const bool whole = c.opens && c.channels == 2 && c.frames == int64_t(c.data.size() / 2) && c.readable == c.data.size();
			trace("call %u: file %u (%s, %lld frames, %d channels, %zu of %zu items readable): %s", i + 1, k, c.opens ? "there" : "missing", (long long)c.frames, c.channels, c.readable, c.data.size(),
				  refused ? refused : "loaded");
			if (refused) {
				count("event.loading_refused");
				if (whole && !fired) {
					fail("refused", "call %u: an intact stereo file of %lld frames is refused: %s", i + 1, (long long)c.frames, refused);
				}
				if (!strcmp(refused, "out of memory") && !fired && c.frames < (int64_t(1) << 40)) {
					fail("refused", "call %u: out of memory although no allocation failed", i + 1);
				}
			}
			else {
				if (!c.opens || c.channels != 2) {
					fail("accepted", "call %u: a file that %s is accepted", i + 1, c.opens ? "is not stereo" : "cannot be opened");
				}
				// What could be read, to the last whole frame; no more.
				const size_t n = std::min(c.readable, c.data.size()) / 2;
				bool silence = int64_t(n) < c.frames && int64_t(s->leftChannel.size()) == c.frames && s->rightChannel.size() == s->leftChannel.size();
				for (size_t j = 0; silence && j < 2 * size_t(c.frames); ++j) {
					const float got = j % 2 ? s->rightChannel[j / 2] : s->leftChannel[j / 2];
					silence = got == (j < std::min(c.readable, c.data.size()) ? c.data[j] : 0.f);
				}
				if (silence) {
					finding("short-read-is-silence", "call %u: a file that ends, or fails, after %zu of %lld frames is loaded as if the rest were silence", i + 1, n, (long long)c.frames);
					sig = mix(sig, k);
					continue;
				}
				if (s->leftChannel.size() != s->rightChannel.size() || s->leftChannel.size() != n) {
					fail("wrong-length", "call %u: loading a file from which %zu frames can be read (the header says %lld) succeeds with %zu and %zu samples", i + 1, n, (long long)c.frames, s->leftChannel.size(),
						 s->rightChannel.size());
				}
				for (size_t j = 0; j < n; ++j) {
					if (s->leftChannel[j] != c.data[2 * j] || s->rightChannel[j] != c.data[2 * j + 1]) {
						fail("wrong-sample", "call %u: frame %zu of %zu is (%g, %g), the file has (%g, %g)", i + 1, j, n, double(s->leftChannel[j]), double(s->rightChannel[j]), double(c.data[2 * j]),
							 double(c.data[2 * j + 1]));
					}
				}
				if (s->sampleRate != uint64_t(c.rate)) {
					fail("wrong-rate", "call %u: sample rate %llu, the file has %d", i + 1, (unsigned long long)s->sampleRate, c.rate);
				}
				samples(n);
				count("event.loaded");
			}
			sig = mix(sig, mix(uint64_t(c.frames) * 8 + c.channels, (refused ? 1 : 0) + k * 2));
		}
		heap::checkIntegrity("after loading");
	}
	const auto leak = heap::findLeaks();
	if (leak.blocks) {
		fail("leak", "%llu blocks (%llu bytes) are no longer reachable; the first has %zu bytes", (unsigned long long)leak.blocks, (unsigned long long)leak.bytes, leak.firstSize);
	}
	nontrivial(sig);
	summary("%u files, %u calls; first file: %lld frames, %d channels", nFiles, calls, (long long)(*disk)[names[0]].frames, (*disk)[names[0]].channels);
}

} // namespace

const Workload sim::workload{ "C15", 1, run };
