// Assertions: each run is a process of its own, whose log, end and last words are observed.
#include "nzv.hpp"
#include <NazaraUtils/Assert.hpp>
#include <sys/resource.h>
#include <sys/wait.h>
#include <type_traits>

using namespace nzv;

static int g_env, g_pipe;
static void Tell(char what, int n)
{
	char b[2] = { what, char('0' + n) };
	if (::write(g_pipe, b, 2) != 2)
		::_exit(9);
}
static int Cond(int c) { Tell('e', c); return (g_env >> c) & 1; }
static void Mark(int n) { Tell('m', n); }
static int Arg(int c) { Tell('a', c); return c; }
static bool Never() { return false; }
#define COND(c) Cond(c)

#define FORM 0
#define A(c) NazaraAssert(COND(c))
#include "prog_assert.inc"
#define FORM 1
#define A(c) NazaraAssert(COND(c) % 2 == 1)
#include "prog_assert.inc"
#define FORM 2
#define A(c) NazaraAssert(Never() || COND(c))
#include "prog_assert.inc"
#define FORM 3
#define A(c) NazaraAssertMsg(COND(c), "100% sure %s")
#include "prog_assert.inc"
#define FORM 4
#define A(c) NazaraAssertMsg(Never() || COND(c), "c=%d %s%%", Arg(c), "end")
#include "prog_assert.inc"
#define FORM 5
#define A(c) Nz::Assert(COND(c))
#include "prog_assert.inc"
#define FORM 6
#define A(c) Nz::Assert(COND(c), "plain %s")
#include "prog_assert.inc"
#define FORM 7
#define A(c) Nz::Assert(COND(c), "n=%d of %s", c, "three")
#include "prog_assert.inc"
#define FORM 8
#define A(c) Nz::AssertWithSource(COND(c), "some/file.cpp", 4711, "at %d")
#include "prog_assert.inc"
#define FORM 9
#define A(c) Nz::AssertWithSource(COND(c), "some/file.cpp", 4711, "n=%d of %s", c, "three")
#include "prog_assert.inc"
#define FORM 10
#define A(c) [] { if (!Cond(c)) Nz::AssertFailure(); }()
#include "prog_assert.inc"
#define FORM 11
#define A(c) [] { if (!Cond(c)) Nz::AssertFailure("n=%d of %s", c, "three"); }()
#include "prog_assert.inc"
#define FORM 12
#define A(c) [] { if (!Cond(c)) Nz::AssertFailureWithSource("some/file.cpp", 4711, "at %d"); }()
#include "prog_assert.inc"

static void Program(int f, int p)
{
	switch (f)
	{
		case 0: return Program0(p);
		case 1: return Program1(p);
		case 2: return Program2(p);
		case 3: return Program3(p);
		case 4: return Program4(p);
		case 5: return Program5(p);
		case 6: return Program6(p);
		case 7: return Program7(p);
		case 8: return Program8(p);
		case 9: return Program9(p);
		case 10: return Program10(p);
		case 11: return Program11(p);
		default: return Program12(p);
	}
}
// what the last words have to contain
static std::string Text(int f, int c)
{
	std::string s = std::to_string(c);
	switch (f)
	{
		case 0: return "COND(" + s + ")";
		case 1: return "COND(" + s + ") % 2 == 1";
		case 2: return "Never() || COND(" + s + ")";
		case 3: return "100% sure %s";
		case 4: return "c=" + s + " end%";
		case 6: return "plain %s";
		case 7: case 9: case 11: return "n=" + s + " of three";
		case 8: case 12: return "at %d";
		default: return "assertion failed";
	}
}

static std::string Drain(int fd)
{
	std::string s;
	char b[4096];
	for (ssize_t n; (n = ::read(fd, b, sizeof b)) > 0;)
		s.append(b, std::size_t(n));
	::close(fd);
	return s;
}

static void Play(int p, int f, int bits)
{
	int words[2], err[2], line[2];
	if (::pipe(words) || ::pipe(err) || ::pipe(line))
		std::exit(2);
	pid_t child = ::fork();
	if (child < 0)
		std::exit(2);
	if (child == 0)
	{
		rlimit none{ 0, 0 };
		::setrlimit(RLIMIT_CORE, &none);
		for (int s : { SIGALRM, SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGTRAP, SIGILL })
			::signal(s, SIG_DFL);
		::alarm(20);
		::dup2(err[1], 2);
		g_pipe = words[1];
		g_env = bits;
		Program(f, p);
		::_exit(0);
	}
	::close(words[1]);
	::close(err[1]);
	::close(line[1]);
	std::string log = Drain(words[0]), said = Drain(err[0]);
	::close(line[0]);
	int st = 0;
	::waitpid(child, &st, 0);
	std::vector<std::string> what;
	std::string j = "[";
	int last = 0;
	for (std::size_t k = 0; k + 1 < log.size(); k += 2)
	{
		const char* w = log[k] == 'e' ? "eval" : log[k] == 'm' ? "mark" : "arg";
		if (log[k] == 'e') last = log[k + 1] - '0';
		j += std::string(k ? "," : "") + "[\"" + w + "\"," + std::string(1, log[k + 1]) + "]";
	}
	j += "]";
	std::vector<int> env = { (bits >> 1) & 1, (bits >> 2) & 1, (bits >> 3) & 1 };
	auto has = [&](const std::string& x) { return said.find(x) != std::string::npos; };
	bool source = f == 8 || f == 9 || f == 12;
	bool line1 = false;
	if (source) line1 = has("4711");
	else
	{
		// the line of the program in prog_assert.inc: program p stands on line 7 + p
		line1 = has(":" + std::to_string(7 + p));
	}
	Ev("Run").i("p", p).i("f", f).arr("env", env).raw("log", j).s("ended", WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "returned" : WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGSEGV && WTERMSIG(st) != SIGKILL ? "killed" : "other")
		.b("said", !said.empty()).b("text", has(Text(f, last))).b("file", has(source ? "some/file.cpp" : "prog_assert.inc")).b("line", line1).emit();
}

// ---- in constant expressions
template<int F, bool B> constexpr int Evaluate()
{
	if constexpr (F == 0) NazaraAssert(B);
	else if constexpr (F == 3) NazaraAssertMsg(B, "message");
	else if constexpr (F == 4) NazaraAssertMsg(B, "message %d", 3);
	else if constexpr (F == 5) Nz::Assert(B);
	else if constexpr (F == 6) Nz::Assert(B, "message");
	else if constexpr (F == 7) Nz::Assert(B, "message %d", 3);
	else if constexpr (F == 8) Nz::AssertWithSource(B, "f", 1, "message");
	else if constexpr (F == 10) { if (!B) Nz::AssertFailure(); }
	else if constexpr (F == 11) { if (!B) Nz::AssertFailure("message"); }
	else { if (!B) Nz::AssertFailureWithSource("f", 1, "message"); }
	return 1;
}
template<int F, bool B, int = Evaluate<F, B>()> constexpr bool IsConstant(int) { return true; }
template<int F, bool B> constexpr bool IsConstant(long) { return false; }
template<int F> static void Constants()
{
	Ev("Const").i("f", F).b("holds", true).b("constant", IsConstant<F, true>(0)).emit();
	Ev("Const").i("f", F).b("holds", false).b("constant", IsConstant<F, false>(0)).emit();
}

static int Hint(unsigned v, int how)
{
	const void* p = (v & 1) ? static_cast<const void*>(&v) : nullptr;
	switch (how)
	{
		case 0: if NAZARA_LIKELY(v & 4) return 1; else return 0;
		case 1: if NAZARA_UNLIKELY(v & 4) return 1; else return 0;
		case 2: if NAZARA_LIKELY(p) return 1; return 0;
		case 3: if NAZARA_UNLIKELY(!p) return 0; return 1;
		case 4: { int n = 0; while NAZARA_LIKELY(v != 0) { v >>= 1; ++n; } return n; }
		case 5: if NAZARA_UNLIKELY(v == 3 || v == 5) return 1; return 0;
		case 6: { NAZARA_ASSUME(v < 100000u); return int(v % 7); }
		default: switch (v % 3) { case 0: return 10; case 1: return 11; case 2: return 12; } NAZARA_UNREACHABLE();
	}
}

static void Run(const std::vector<Op>& script, const std::string&)
{
	for (const Op& op : script)
	{
		SetDuring(Describe(op));
		if (op.name == "Begin")
		{
			bool ndebug = false, enable = false, never = false;
#ifdef NDEBUG
			ndebug = true;
#endif
#ifdef NAZARA_ENABLE_ASSERTS
			enable = true;
#endif
#ifdef NAZARA_NO_ASSERT
			never = true;
#endif
			Ev("Begin").b("ndebug", ndebug).b("enable", enable).b("never", never).emit();
		}
		else if (op.name == "Run")
		{
			auto env = op.list("env");
			int bits = 0;
			for (std::size_t k = 0; k < env.size() && k < 3; ++k)
				bits |= int(env[k] != 0) << (k + 1);
			Play(int(Mod(op.get("p") - 1, 15)) + 1, int(Mod(op.get("f"), 13)), bits);
		}
		else if (op.name == "Hint")
		{
			unsigned v = unsigned(op.get("v"));
			int how = int(Mod(op.get("how"), 8));
			Ev("Hint").i("v", v).i("how", how).i("got", Hint(v, how)).emit();
		}
		else if (op.name == "Constants")
		{
			Constants<0>(); Constants<3>(); Constants<4>(); Constants<5>(); Constants<6>(); Constants<7>(); Constants<8>(); Constants<10>(); Constants<11>(); Constants<12>();
		}
	}
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
