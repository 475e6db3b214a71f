// Caller-owned buffers placed against inaccessible pages, so that any access outside the range handed to the
// library faults; read-only while the library only has a const view.
#pragma once
#include "core.hpp"
#include <sys/mman.h>
#include <type_traits>

namespace sim {

unsigned char* guardAlloc(size_t bytes, size_t align, bool atStart, size_t& mapped);
void guardProtect(const void* p, size_t bytes, bool writable);

// Recycled buffers with margins. mode 0: flush against the trailing guard page, 1: against the leading one, 2: in the
// middle of a page at offset `off` elements. margin chooses what lies around the buffer.
struct Placed {
	unsigned char* p = nullptr;
	unsigned char* map = nullptr;
	size_t bytes = 0, mapped = 0;
	unsigned margin = 0;
};
Placed placeAlloc(size_t bytes, size_t align, unsigned mode, unsigned off, unsigned margin);
void placeReadOnly(const Placed& b);
void placeCheck(const Placed& b); // fails the run if the margins were written
void placeFree(const Placed& b);

template <class T>
class Buf {
public:
	Buf() = default;
	// atStart: flush against the leading guard page (catches underruns); otherwise against the trailing one.
	explicit Buf(size_t n, bool atStart = false) : m_n(n) {
		m_p = reinterpret_cast<T*>(guardAlloc(n * sizeof(T), alignof(T), atStart, m_mapped));
	}
	size_t size() const { return m_n; }
	T* data() { return m_p; }
	const T* data() const { return m_p; }
	T* begin() { return m_p; }
	T* end() { return m_p + m_n; }
	const T* begin() const { return m_p; }
	const T* end() const { return m_p + m_n; }
	T& operator[](size_t i) { return m_p[i]; }
	const T& operator[](size_t i) const { return m_p[i]; }
	void readOnly() { guardProtect(m_p, m_n * sizeof(T), false); }
	void writable() { guardProtect(m_p, m_n * sizeof(T), true); }
	uint64_t hash() const { return hashBytes(m_p, m_n * sizeof(T)); }

private:
	T* m_p = nullptr;
	size_t m_n = 0;
	size_t m_mapped = 0;
};

} // namespace sim
