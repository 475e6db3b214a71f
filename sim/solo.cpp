// Single-threaded simulations: a lock that is not free can never be released any more.
#include "core.hpp"

#include <cerrno>
#include <dlfcn.h>
#include <pthread.h>

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
	static decltype(&::pthread_mutex_lock) real = nullptr;
	if (!sim::shm) {
		if (!real) {
			real = reinterpret_cast<decltype(real)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
		}
		return real(m);
	}
	const int r = pthread_mutex_trylock(m);
	if (r == EBUSY) {
		sim::fail("deadlock", "a lock taken by an earlier call was never released");
	}
	return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
	const int r = pthread_rwlock_trywrlock(m);
	if (r == EBUSY) {
		sim::fail("deadlock", "a lock taken by an earlier call was never released");
	}
	return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
	const int r = pthread_rwlock_tryrdlock(m);
	if (r == EBUSY) {
		sim::fail("deadlock", "a lock taken by an earlier call was never released");
	}
	return r;
}
}
