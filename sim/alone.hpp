// Runs a piece of a run in a process of its own, forked from the current (usually pristine) image. Choices, events,
// the board and verdicts are shared with the parent; memory effects are not.
#pragma once
#include "core.hpp"

#include <cerrno>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

template <class F>
void alone(F&& f, long cpuMs = 10000) {
	const pid_t pid = fork();
	if (pid < 0) {
		error("fork");
	}
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		itimerval tv{};
		tv.it_value.tv_sec = cpuMs / 1000;
		tv.it_value.tv_usec = (cpuMs % 1000) * 1000;
		setitimer(ITIMER_PROF, &tv, nullptr);
		f();
		_exit(99);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
	}
	if (shm->outcome != OUT_NONE) {
		_exit(0); // the child has reported
	}
	if (WIFSIGNALED(status)) {
		// Die the same way, so that the worker sees what happened.
		const int sig = WTERMSIG(status);
		signal(sig, SIG_DFL);
		kill(getpid(), sig);
		pause();
	}
	if (!WIFEXITED(status) || WEXITSTATUS(status) != 99) {
		_exit(WEXITSTATUS(status)); // sanitizer or exit() inside the library
	}
}

} // namespace sim
