// Worker process: runs simulations, each in a process forked from a pristine image; minimises and replays.
#include "core.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sim {

Shm* shm = nullptr;
bool thorough = false;
static long cpuLimitMs = 20000;

// Classes of failures listed in known_findings.txt, and the counters of their occurrences.
struct Known {
	std::string cls;
	std::string counter;
};
static std::vector<Known> known;
static const Known* listed(const std::string& cls) {
	for (auto& k : known) {
		if (k.cls == cls) {
			return &k;
		}
	}
	return nullptr;
}

uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
	const auto* b = static_cast<const unsigned char*>(p);
	h = mix(h, n);
	while (n >= 8) {
		uint64_t v;
		memcpy(&v, b, 8);
		h = (h ^ v) * 0x9FB21C651E98DF25ull;
		h ^= h >> 35;
		b += 8;
		n -= 8;
	}
	uint64_t v = 0;
	memcpy(&v, b, n);
	return mix(h, v);
}

uint32_t draw(uint64_t n, const char* label) {
	if (n <= 1) {
		return 0;
	}
	const uint32_t pos = shm->nChoices;
	uint32_t v;
	if (pos >= MAX_CHOICES) {
		shm->choiceOverflow = 1;
		return 0;
	}
	if (shm->replaying) {
		v = pos < shm->nReplay ? uint32_t(shm->replay[pos] % n) : 0;
	}
	else {
		v = uint32_t(mix(shm->seed, pos) % n);
	}
	shm->choices[pos] = v;
	shm->bounds[pos] = uint32_t(n);
	shm->labels[pos] = label;
	shm->nChoices = pos + 1;
	return v;
}

uint32_t drawSize(uint32_t lo, uint32_t hi, const char* label) {
	if (hi <= lo) {
		return lo;
	}
	static const uint32_t interesting[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 514, 1023, 1024, 1025 };
	const uint32_t span = hi - lo;
	uint32_t v = 0;
	switch (draw(8, label)) {
		case 0:
		case 1: v = lo + draw(std::min<uint32_t>(span, 4) + 1, label); break;
		case 2:
		case 3: v = lo + draw(std::min<uint32_t>(span, 12) + 1, label); break;
		case 4: v = lo + draw(std::min<uint32_t>(span, 40) + 1, label); break;
		case 5: v = interesting[draw(sizeof(interesting) / sizeof(interesting[0]), label)]; break;
		case 6: v = lo + draw(std::min<uint32_t>(span, 160) + 1, label); break;
		default: v = lo + draw(span + 1, label); break;
	}
	return std::min(hi, std::max(lo, v));
}

void ev(uint64_t v) {
	shm->evhash = mix(shm->evhash, v);
	shm->evcount++;
}
void evBytes(const void* p, size_t n) { ev(hashBytes(p, n)); }

void trace(const char* fmt, ...) {
	if (!shm->tracing) {
		return;
	}
	char line[1024];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(line, sizeof line - 1, fmt, ap);
	va_end(ap);
	n = std::min<int>(n, sizeof line - 2);
	line[n++] = '\n';
	if (shm->traceLen + n < TRACE_BYTES) {
		memcpy(shm->trace + shm->traceLen, line, n);
		shm->traceLen += n;
	}
}

void count(const char* name, uint64_t n) {
	if (shm->countersFrozen) {
		return;
	}
	size_t i = (uintptr_t(name) >> 3) * 2654435761u % MAX_COUNTERS;
	for (size_t k = 0; k < MAX_COUNTERS; ++k, i = (i + 1) % MAX_COUNTERS) {
		auto& c = shm->counters[i];
		if (c.name == name || c.name == nullptr) {
			c.name = name;
			c.value += n;
			return;
		}
	}
}
void distinct(const char* set, uint64_t hash) {
	if (shm->nSets < MAX_SETS) {
		uint64_t h = (hash + 0x9E3779B97F4A7C15ull) * 0xBF58476D1CE4E5B9ull; // small numbers are spread over all bits
		h ^= h >> 31;
		shm->sets[shm->nSets++] = { set, h * 0x94D049BB133111EBull };
	}
}
void summary(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(shm->summary, sizeof shm->summary, fmt, ap);
	va_end(ap);
}
void samples(uint64_t n) { shm->sampleCount += n; }
void nontrivial(uint64_t signature) {
	shm->nontrivial = 1;
	shm->signature = signature;
}

static void report(Outcome o, const char* cls, const char* fmt, va_list ap) {
	if (shm->outcome != OUT_NONE) {
		_exit(0);
	}
	snprintf(shm->cls, sizeof shm->cls, "%s", cls);
	vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
	shm->outcome = o;
	_exit(0);
}
void fail(const char* cls, const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	report(OUT_VIOLATION, cls, fmt, ap);
	__builtin_unreachable();
}
void finding(const char* cls, const char* fmt, ...) {
	for (auto& k : known) {
		if (!strcmp(k.cls.c_str(), cls)) {
			count(k.counter.c_str());
			return;
		}
	}
	va_list ap;
	va_start(ap, fmt);
	report(OUT_VIOLATION, cls, fmt, ap);
	__builtin_unreachable();
}
void error(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	report(OUT_ERROR, "harness-error", fmt, ap);
	__builtin_unreachable();
}

void boardPut(const void* p, size_t n) {
	if (shm->boardLen + n > BOARD_BYTES) {
		error("board overflow");
	}
	memcpy(shm->board + shm->boardLen, p, n);
	shm->boardLen += n;
}

} // namespace sim

using namespace sim;

static double now() {
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

static int errPipeFd = -1; // child's stderr is collected here (asserts, sanitizer reports)

struct RunResult {
	uint32_t outcome;
	std::string cls, msg;
	uint64_t evhash, evcount;
};

static void resetRun() {
	shm->outcome = OUT_NONE;
	shm->phase = 0;
	shm->cls[0] = shm->msg[0] = shm->summary[0] = 0;
	shm->evhash = 0;
	shm->evcount = 0;
	shm->nChoices = 0;
	shm->choiceOverflow = 0;
	shm->nSets = 0;
	shm->nontrivial = 0;
	shm->signature = 0;
	shm->traceLen = 0;
	shm->boardLen = 0;
	shm->sampleCount = 0;
}

static std::string slurpErr() {
	std::string s;
	if (errPipeFd >= 0) {
		off_t n = lseek(errPipeFd, 0, SEEK_END);
		if (n > 0) {
			s.resize(std::min<off_t>(n, 65536));
			ssize_t r = pread(errPipeFd, s.data(), s.size(), 0);
			s.resize(r > 0 ? size_t(r) : 0);
		}
	}
	return s;
}

static std::string firstInteresting(const std::string& err) {
	// Prefer the assertion / sanitizer headline.
	for (const char* key : { "ERROR: AddressSanitizer", "Assertion", "terminate called", "stack smashing", "runtime error" }) {
		auto p = err.find(key);
		if (p != std::string::npos) {
			auto b = err.rfind('\n', p);
			b = b == std::string::npos ? 0 : b + 1;
			auto e = err.find('\n', p);
			return err.substr(b, (e == std::string::npos ? err.size() : e) - b);
		}
	}
	return err.substr(0, 300);
}

// Runs all the phases of the run described by shm->seed / shm->replay.
static RunResult runOnce() {
	resetRun();
	RunResult r{};
	for (int phase = 0; phase < workload.phases; ++phase) {
		shm->phase = uint32_t(phase);
		shm->outcome = OUT_NONE;
		shm->nChoices = 0;
		shm->nSets = 0;
		if (ftruncate(errPipeFd, 0) != 0) {
		}
		lseek(errPipeFd, 0, SEEK_SET);
		fflush(stdout);
		const pid_t pid = fork();
		if (pid < 0) {
			perror("fork");
			_exit(3);
		}
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			dup2(errPipeFd, 2);
			rlimit nocore{ 0, 0 };
			setrlimit(RLIMIT_CORE, &nocore);
			itimerval tv{};
			tv.it_value.tv_sec = cpuLimitMs / 1000;
			tv.it_value.tv_usec = (cpuLimitMs % 1000) * 1000;
			setitimer(ITIMER_PROF, &tv, nullptr);
			workload.run(phase);
			shm->outcome = OUT_OK;
			_exit(0);
		}
		int status = 0;
		const int pfd = int(syscall(SYS_pidfd_open, pid, 0));
		bool stuck = false;
		if (pfd >= 0) {
			pollfd pf{ pfd, POLLIN, 0 };
			const double t0 = now();
			const double lim = 10.0 * double(cpuLimitMs) / 1000.0;
			int pr;
			while ((pr = poll(&pf, 1, 1000)) == 0 || (pr < 0 && errno == EINTR)) {
				if (now() - t0 > lim) {
					kill(pid, SIGKILL);
					stuck = true;
				}
			}
			close(pfd);
		}
		while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
		}
		r.outcome = shm->outcome;
		r.cls = shm->cls;
		r.msg = shm->msg;
		if (stuck) {
			r.outcome = OUT_ERROR;
			r.cls = "stuck";
			r.msg = "run exceeded the real-time watchdog without using CPU";
		}
		else if (WIFSIGNALED(status)) {
			const int sig = WTERMSIG(status);
			if (sig == SIGKILL) {
				r.outcome = OUT_ERROR;
				r.cls = "killed";
				r.msg = "simulation process was killed from outside";
			}
			else if (shm->outcome == OUT_NONE) {
				r.outcome = OUT_VIOLATION;
				r.cls = sig == SIGPROF ? "hang" : std::string("crash:") + strsignal(sig);
				r.msg = sig == SIGPROF ? "no progress within the CPU budget of a run" : firstInteresting(slurpErr());
			}
		}
		else if (shm->outcome == OUT_NONE) {
			const std::string err = slurpErr();
			r.outcome = OUT_VIOLATION;
			if (err.find("AddressSanitizer") != std::string::npos) {
				auto p = err.find("AddressSanitizer: ");
				auto e = err.find_first_of(" \n", p + 18);
				r.cls = "memory:" + err.substr(p + 18, e - p - 18);
			}
			else {
				r.cls = "exit";
			}
			r.msg = firstInteresting(err);
		}
		r.evhash = shm->evhash;
		r.evcount = shm->evcount;
		if (r.outcome != OUT_OK) {
			break;
		}
	}
	if (shm->choiceOverflow && r.outcome == OUT_OK) {
		r.outcome = OUT_ERROR;
		r.cls = "harness-error";
		r.msg = "choice buffer overflow";
	}
	return r;
}

static std::string jstr(const std::string& s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += char(c);
		}
		else if (c < 0x20 || c > 0x7e) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		}
		else {
			o += char(c);
		}
	}
	return o + "\"";
}

static std::string oneLine(std::string s) {
	for (auto& c : s) {
		if (c == '\n' || c == '\r') {
			c = ' ';
		}
	}
	return s;
}

static std::vector<uint32_t> takeChoices() { return { shm->choices, shm->choices + shm->nChoices }; }
static void setReplay(const std::vector<uint32_t>& c) {
	shm->replaying = 1;
	shm->nReplay = uint32_t(c.size());
	memcpy(shm->replay, c.data(), c.size() * sizeof(uint32_t));
}

static void writeReplay(const char* path, const RunResult& r, uint64_t index, bool withTrace) {
	FILE* f = fopen(path, "w");
	if (!f) {
		perror(path);
		_exit(3);
	}
	fprintf(f, "property %s\n", workload.property);
	fprintf(f, "index %llu\nrunseed %llu\n", (unsigned long long)index, (unsigned long long)shm->seed);
	fprintf(f, "thorough %d\n", thorough ? 1 : 0);
	fprintf(f, "class %s\n", r.cls.c_str());
	fprintf(f, "message %s\n", oneLine(r.msg).c_str());
	fprintf(f, "evhash %016llx events %llu\n", (unsigned long long)r.evhash, (unsigned long long)r.evcount);
	fprintf(f, "choices %u\n", shm->nChoices);
	for (uint32_t i = 0; i < shm->nChoices; ++i) {
		fprintf(f, "%u %u %s\n", shm->choices[i], shm->bounds[i], shm->labels[i] ? shm->labels[i] : "");
	}
	if (withTrace) {
		fprintf(f, "trace\n%.*s", int(shm->traceLen), shm->trace);
	}
	fclose(f);
}

static bool readReplay(const char* path, std::vector<uint32_t>& c, std::string& cls, uint64_t& seed, uint64_t& index, std::string& evh) {
	FILE* f = fopen(path, "r");
	if (!f) {
		return false;
	}
	char line[8192];
	size_t n = 0;
	while (fgets(line, sizeof line, f)) {
		std::string s(line);
		while (!s.empty() && s.back() == '\n') {
			s.pop_back();
		}
		if (s.rfind("class ", 0) == 0) {
			cls = s.substr(6);
		}
		else if (s.rfind("index ", 0) == 0) {
			index = strtoull(s.c_str() + 6, nullptr, 10);
		}
		else if (s.rfind("runseed ", 0) == 0) {
			seed = strtoull(s.c_str() + 8, nullptr, 10);
		}
		else if (s.rfind("thorough ", 0) == 0) {
			thorough = s[9] == '1';
		}
		else if (s.rfind("evhash ", 0) == 0) {
			evh = s.substr(7, 16);
		}
		else if (s.rfind("choices ", 0) == 0) {
			n = strtoull(s.c_str() + 8, nullptr, 10);
			for (size_t i = 0; i < n && fgets(line, sizeof line, f); ++i) {
				c.push_back(uint32_t(strtoul(line, nullptr, 10)));
			}
			break;
		}
	}
	fclose(f);
	return true;
}

static std::string classKey(const std::string& c) { return c; }

static RunResult minimise(std::vector<uint32_t>& best, const RunResult& orig, double budget, long& attempts) {
	const double t0 = now();
	RunResult bestR = orig;
	shm->countersFrozen = 1;
	shm->tracing = 0;
	auto attempt = [&](const std::vector<uint32_t>& cand) {
		if (now() - t0 > budget) {
			return false;
		}
		++attempts;
		setReplay(cand);
		RunResult r = runOnce();
		if (r.outcome == OUT_VIOLATION && classKey(r.cls) == classKey(orig.cls)) {
			auto got = takeChoices();
			// Drop trailing zeros: they are what an exhausted stream gives anyway.
			while (!got.empty() && got.back() == 0) {
				got.pop_back();
			}
			auto better = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
				if (a.size() != b.size()) {
					return a.size() < b.size();
				}
				return a < b;
			};
			if (better(got, best)) {
				best = got;
				bestR = r;
				return true;
			}
		}
		return false;
	};
	{
		auto b = best;
		while (!b.empty() && b.back() == 0) {
			b.pop_back();
		}
		best = b;
	}
	bool progress = true;
	while (progress && now() - t0 < budget) {
		progress = false;
		// Truncate.
		for (size_t keep = 0; keep < best.size() && now() - t0 < budget;) {
			auto c = best;
			c.resize(keep);
			if (attempt(c)) {
				progress = true;
				break;
			}
			keep = keep == 0 ? 1 : keep * 2;
		}
		// Delete chunks.
		for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= best.size() && now() - t0 < budget;) {
				auto c = best;
				c.erase(c.begin() + ptrdiff_t(i), c.begin() + ptrdiff_t(i + len));
				if (attempt(c)) {
					progress = true;
				}
				else {
					i += len;
				}
			}
		}
		// Zero chunks.
		for (size_t len = 8; len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= best.size() && now() - t0 < budget; i += len) {
				auto c = best;
				bool any = false;
				for (size_t k = i; k < i + len; ++k) {
					any |= c[k] != 0;
					c[k] = 0;
				}
				if (any && attempt(c)) {
					progress = true;
				}
			}
		}
		// Lower values.
		for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) {
			uint32_t lo = 0;
			while (i < best.size() && lo < best[i] && now() - t0 < budget) {
				auto c = best;
				c[i] = lo + (best[i] - lo) / 2;
				if (c[i] == best[i]) {
					break;
				}
				const uint32_t tried = c[i];
				if (attempt(c)) {
					progress = true;
				}
				else {
					lo = tried + 1;
				}
			}
		}
	}
	// Leave the shared record describing the best one, with a trace.
	setReplay(best);
	shm->tracing = 1;
	RunResult fin = runOnce();
	shm->tracing = 0;
	shm->countersFrozen = 0;
	(void)bestR;
	return fin;
}

// Addresses are part of a run (uninitialised memory, ordering by pointer): take the randomness out of them.
static void fixAddresses(char** argv) {
	const int p = personality(0xffffffff);
	if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && !getenv("DSPSIM_REEXEC")) {
		if (personality(unsigned(p) | ADDR_NO_RANDOMIZE) >= 0) {
			setenv("DSPSIM_REEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	unsetenv("DSPSIM_REEXEC");
}

int main(int argc, char** argv) {
	fixAddresses(argv);
	std::map<std::string, std::string> opt;
	const std::string mode = argc > 1 ? argv[1] : "";
	for (int i = 2; i + 1 < argc; i += 2) {
		if (!strcmp(argv[i], "--known")) {
			known.push_back({ argv[i + 1], std::string("known_finding.") + argv[i + 1] });
			continue;
		}
		opt[argv[i]] = argv[i + 1];
	}
	auto num = [&](const char* k, long long d) { return opt.count(k) ? strtoll(opt[k].c_str(), nullptr, 10) : d; };
	thorough = num("--thorough", 0) != 0;
	cpuLimitMs = long(num("--cpu-ms", 20000));
	shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (shm == MAP_FAILED) {
		perror("mmap");
		return 3;
	}
	errPipeFd = int(syscall(SYS_memfd_create, "err", 0));

	const uint64_t baseSeed = mix(uint64_t(num("--seed", 1)), hashBytes(workload.property, strlen(workload.property)));

	if (mode == "run") {
		const uint64_t start = uint64_t(num("--start", 0)), stride = uint64_t(num("--stride", 1)), maxRuns = uint64_t(num("--max", 1ll << 40));
		const double budget = double(num("--time", 30));
		const std::string out = opt["--out"];
		const bool hashes = num("--hashes", 0) != 0;
		const double t0 = now();
		uint64_t runs = 0, nontriv = 0, errors = 0, events = 0, samplesTotal = 0, rechecked = 0, choicesTotal = 0;
		std::unordered_map<std::string, std::unordered_set<uint64_t>> sets;
		std::vector<std::string> samplesTxt;
		std::string vio, err;
		uint64_t vioIndex = 0;
		FILE* hf = hashes ? fopen((out + ".hashes").c_str(), "w") : nullptr;
		for (uint64_t i = start; runs < maxRuns && now() - t0 < budget; i += stride) {
			shm->replaying = 0;
			shm->index = i;
			shm->seed = mix(baseSeed, i);
			RunResult r = runOnce();
			++runs;
			events += r.evcount;
			choicesTotal += shm->nChoices;
			samplesTotal += shm->sampleCount;
			if (hf) {
				fprintf(hf, "%llu %016llx %llu %u\n", (unsigned long long)i, (unsigned long long)r.evhash, (unsigned long long)r.evcount, shm->nChoices);
			}
			if (shm->nontrivial) {
				++nontriv;
				sets["runs"].insert(shm->signature);
			}
			for (uint32_t k = 0; k < shm->nSets; ++k) {
				sets[shm->sets[k].set].insert(shm->sets[k].hash);
			}
			if (shm->summary[0] && (samplesTxt.size() < 4 || (runs % 997 == 0 && samplesTxt.size() < 8))) {
				samplesTxt.push_back("run " + std::to_string(i) + ": " + shm->summary);
			}
			if (r.outcome == OUT_OK && runs % 64 == 1) {
				// Determinism gate on a sample of the passing runs: same seed, same event log.
				++rechecked;
				shm->countersFrozen = 1;
				RunResult r2 = runOnce();
				shm->countersFrozen = 0;
				if (r2.outcome != r.outcome || r2.evhash != r.evhash || r2.evcount != r.evcount) {
					err = "run " + std::to_string(i) + " is not deterministic (" + r2.cls + " " + r2.msg + ")";
					break;
				}
			}
			if (r.outcome == OUT_ERROR) {
				++errors;
				err = "run " + std::to_string(i) + ": " + r.cls + ": " + r.msg;
				break;
			}
			if (r.outcome == OUT_VIOLATION && listed(r.cls)) {
				count(listed(r.cls)->counter.c_str());
			}
			else if (r.outcome == OUT_VIOLATION) {
				vio = r.cls + ": " + oneLine(r.msg);
				vioIndex = i;
				writeReplay((out + ".violation").c_str(), r, i, false);
				break;
			}
		}
		if (hf) {
			fclose(hf);
		}
		FILE* f = fopen(out.c_str(), "w");
		fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"events\":%llu,\"samples\":%llu,\"choices\":%llu,\"rechecked\":%llu,\"wall\":%.3f,\n", (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)events, (unsigned long long)samplesTotal, (unsigned long long)choicesTotal, (unsigned long long)rechecked, now() - t0);
		fprintf(f, "\"violation\":%s,\"violation_index\":%llu,\"error\":%s,\n\"counters\":{", jstr(vio).c_str(), (unsigned long long)vioIndex, jstr(err).c_str());
		std::map<std::string, uint64_t> byName;
		for (auto& c : shm->counters) {
			if (c.name) {
				byName[c.name] += c.value;
			}
		}
		bool first = true;
		for (auto& [k, v] : byName) {
			fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k).c_str(), (unsigned long long)v);
			first = false;
		}
		fprintf(f, "},\n\"sample_runs\":[");
		first = true;
		for (auto& s : samplesTxt) {
			fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str());
			first = false;
		}
		fprintf(f, "],\n\"sets\":{");
		first = true;
		for (auto& [k, v] : sets) {
			fprintf(f, "%s%s:[", first ? "" : ",", jstr(k).c_str());
			first = false;
			bool f2 = true;
			size_t cap = 0;
			for (auto h : v) {
				if (++cap > 400000) {
					break;
				}
				fprintf(f, "%s%llu", f2 ? "" : ",", (unsigned long long)(h >> 12));
				f2 = false;
			}
			fprintf(f, "]");
		}
		fprintf(f, "}}\n");
		fclose(f);
		return !err.empty() ? 2 : !vio.empty() ? 1 : 0;
	}
	if (mode == "replay" || mode == "minimise") {
		std::vector<uint32_t> c;
		std::string cls, evh;
		uint64_t seed = 0, index = 0;
		if (!readReplay(opt["--in"].c_str(), c, cls, seed, index, evh)) {
			fprintf(stderr, "cannot read %s\n", opt["--in"].c_str());
			return 3;
		}
		shm->seed = seed;
		shm->index = index;
		setReplay(c);
		shm->tracing = 1;
		shm->countersFrozen = 1;
		RunResult r = runOnce();
		if (mode == "replay") {
			printf("%.*s", int(shm->traceLen), shm->trace);
			printf("outcome %u class %s evhash %016llx\nmessage %s\n", r.outcome, r.cls.c_str(), (unsigned long long)r.evhash, oneLine(r.msg).c_str());
			if (num("--stderr", 0)) {
				printf("%s\n", slurpErr().c_str());
			}
			char h[32];
			snprintf(h, sizeof h, "%016llx", (unsigned long long)r.evhash);
			if (r.outcome == OUT_VIOLATION) {
				return (cls == r.cls && evh == h) ? 1 : 4; // 4: fails, but not as recorded
			}
			return r.outcome == OUT_OK ? 0 : 2;
		}
		if (r.outcome != OUT_VIOLATION || r.cls != cls) {
			printf("does not reproduce: outcome %u class %s message %s\n", r.outcome, r.cls.c_str(), oneLine(r.msg).c_str());
			return 2;
		}
		long attempts = 0;
		RunResult fin = minimise(c, r, double(num("--time", 20)), attempts);
		if (fin.outcome != OUT_VIOLATION || fin.cls != r.cls) {
			printf("minimised run does not reproduce\n");
			return 2;
		}
		writeReplay(opt["--out"].c_str(), fin, index, true);
		printf("minimised to %zu choices in %ld attempts: %s: %s\n", c.size(), attempts, fin.cls.c_str(), oneLine(fin.msg).c_str());
		return 1;
	}
	fprintf(stderr, "usage: run|replay|minimise\n");
	return 3;
}
