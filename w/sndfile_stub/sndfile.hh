// The part of libsndfile's C++ interface that LoadSound uses; the files behind it are simulated (w/sndfile_sim.cpp).
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>

typedef int64_t sf_count_t;
enum { SFM_READ = 0x10 };

namespace sndsim {
struct File;
File* open(const char* path);
void close(File* f);
sf_count_t frames(const File* f);
int channels(const File* f);
int samplerate(const File* f);
int error(const File* f);
sf_count_t read(File* f, void* to, sf_count_t items, int kind); // 0: float, 1: double, 2: int16, 3: int32
sf_count_t seek(File* f, sf_count_t frame, int whence);
} // namespace sndsim

class SndfileHandle {
	sndsim::File* m_f = nullptr;
	long* m_refs = nullptr;
	void drop() {
		if (m_refs && --*m_refs == 0) {
			sndsim::close(m_f);
			delete m_refs;
		}
		m_f = nullptr;
		m_refs = nullptr;
	}

public:
	SndfileHandle() = default;
	SndfileHandle(const char* path, int = SFM_READ, int = 0, int = 0, int = 0) : m_refs(new long(1)) { m_f = sndsim::open(path); }
	SndfileHandle(const std::string& path, int m = SFM_READ, int f = 0, int c = 0, int r = 0) : SndfileHandle(path.c_str(), m, f, c, r) {}
	SndfileHandle(const SndfileHandle& o) : m_f(o.m_f), m_refs(o.m_refs) {
		if (m_refs) {
			++*m_refs;
		}
	}
	SndfileHandle& operator=(const SndfileHandle& o) {
		if (o.m_refs) {
			++*o.m_refs;
		}
		sndsim::File* const f = o.m_f;
		long* const r = o.m_refs;
		drop();
		m_f = f;
		m_refs = r;
		return *this;
	}
	~SndfileHandle() { drop(); }
	explicit operator bool() const { return m_f != nullptr; }
	bool operator!() const { return m_f == nullptr; }
	bool operator==(const SndfileHandle& o) const { return m_f == o.m_f; }
	sf_count_t frames() const { return sndsim::frames(m_f); }
	int channels() const { return sndsim::channels(m_f); }
	int samplerate() const { return sndsim::samplerate(m_f); }
	int error() const { return sndsim::error(m_f); }
	const char* strError() const { return error() ? "the file is damaged" : "no error"; }
	sf_count_t seek(sf_count_t frame, int whence) { return sndsim::seek(m_f, frame, whence); }
	sf_count_t read(float* p, sf_count_t n) { return sndsim::read(m_f, p, n, 0); }
	sf_count_t read(double* p, sf_count_t n) { return sndsim::read(m_f, p, n, 1); }
	sf_count_t read(short* p, sf_count_t n) { return sndsim::read(m_f, p, n, 2); }
	sf_count_t read(int* p, sf_count_t n) { return sndsim::read(m_f, p, n, 3); }
	sf_count_t readf(float* p, sf_count_t n) { return sndsim::read(m_f, p, n * channels(), 0) / channels(); }
	sf_count_t readf(double* p, sf_count_t n) { return sndsim::read(m_f, p, n * channels(), 1) / channels(); }
	sf_count_t readf(short* p, sf_count_t n) { return sndsim::read(m_f, p, n * channels(), 2) / channels(); }
	sf_count_t readf(int* p, sf_count_t n) { return sndsim::read(m_f, p, n * channels(), 3) / channels(); }
};
