// Failing assertions as outcomes: Attempt runs something and tells whether it failed an assertion.
#pragma once
#include "nzv.hpp"
#include <csetjmp>

namespace nzv
{
// one thread at a time may leave abort() by a jump
#if defined(NAZARA_DEBUG) && !defined(NDEBUG) && !defined(NZV_THREADED)
static constexpr bool Checked = true;
#else
static constexpr bool Checked = false;
#endif

static sigjmp_buf jump;
static volatile sig_atomic_t armed = 0;

static void OnAssert(int sig)
{
	if (armed)
	{
		armed = 0;
		siglongjmp(jump, sig);
	}
	OnSignal(sig);
}

static int errFd = -1, nullFd = -1;

// runs f; false if it fails an assertion
template<typename F> bool Attempt(F&& f)
{
	if constexpr (!Checked)
	{
		f();
		return true;
	}
	::dup2(nullFd, 2);
	bool ok;
	if (sigsetjmp(jump, 1) == 0)
	{
		armed = 1;
		f();
		armed = 0;
		ok = true;
	}
	else
		ok = false;
	std::fflush(stderr);
	::dup2(errFd, 2);
	return ok;
}

static inline void Trap()
{
	if constexpr (!Checked)
		return;
	errFd = ::dup(2);
	nullFd = ::open("/dev/null", O_WRONLY);
	for (int s : { SIGABRT, SIGTRAP, SIGILL })
	{
		struct sigaction sa{};
		sa.sa_handler = OnAssert;
		sa.sa_flags = 0;
		sigaction(s, &sa, nullptr);
	}
}
}
