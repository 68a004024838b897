// Common runtime of the conformance drivers.
//
// A driver reads a script (one operation per line: "name key=value key=v1,v2,..."), executes each
// operation on the real NazaraUtils code and writes one JSON line per public call.  It judges
// nothing: TLC does, with the trace specifications of /verif/spec.
#pragma once

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#ifdef NZV_THREADED
#include <atomic>
#include <thread>
#endif

extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)(void));

namespace nzv
{
	using ll = long long;

	struct Op
	{
		std::string name;
		std::map<std::string, std::vector<ll>> args;

		bool has(const char* k) const { return args.count(k) != 0; }
		ll get(const char* k, ll def = 0) const
		{
			auto it = args.find(k);
			return (it == args.end() || it->second.empty()) ? def : it->second[0];
		}
		std::vector<ll> list(const char* k) const
		{
			auto it = args.find(k);
			return (it == args.end()) ? std::vector<ll>() : it->second;
		}
	};

	inline int& OutFd() { thread_local int fd = 1; return fd; }
	inline std::string& Buffer() { thread_local std::string b; return b; }
	inline char* During() { thread_local char d[256] = "start"; return d; }
	inline long& EventCount() { thread_local long n = 0; return n; }

	inline void Flush()
	{
		std::string& b = Buffer();
		std::size_t off = 0;
		while (off < b.size())
		{
			ssize_t w = ::write(OutFd(), b.data() + off, b.size() - off);
			if (w <= 0)
				break;
			off += std::size_t(w);
		}
		b.clear();
	}

	// async-signal-unsafe parts are acceptable: the process is about to end anyway
	inline void Die(const char* why)
	{
		static bool dying = false;
		if (dying)
			::_exit(3);
		dying = true;
		Flush();
		char line[512];
		int n = std::snprintf(line, sizeof(line), "{\"op\":\"Crash\",\"why\":\"%s\",\"dop\":\"%.*s\",\"during\":\"%s\"}\n", why, int(std::strcspn(During(), " ")), During(), During());
		if (n > 0)
		{
			ssize_t r = ::write(OutFd(), line, std::size_t(n));
			(void) r;
		}
		::_exit(0);
	}

	inline void OnSignal(int s)
	{
		switch (s)
		{
			case SIGALRM: Die("hang");
			case SIGSEGV: Die("SIGSEGV");
			case SIGABRT: Die("SIGABRT");
			case SIGFPE:  Die("SIGFPE");
			case SIGBUS:  Die("SIGBUS");
			case SIGTRAP: Die("SIGTRAP");
			default:      Die("signal");
		}
	}

	inline void OnSanitizer() { Die("sanitizer"); }
	inline void OnTerminate() { Die("terminate"); }

	inline void Install()
	{
		// run the handlers on their own stack: stack overflows must be reported too
		static char altStack[64 * 1024];
		stack_t ss{};
		ss.ss_sp = altStack;
		ss.ss_size = sizeof(altStack);
		sigaltstack(&ss, nullptr);
		for (int s : { SIGALRM, SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGTRAP, SIGILL })
		{
			struct sigaction sa{};
			sa.sa_handler = OnSignal;
			sa.sa_flags = SA_ONSTACK;
			sigaction(s, &sa, nullptr);
		}
		if (__sanitizer_set_death_callback)
			__sanitizer_set_death_callback(OnSanitizer);
		std::set_terminate(OnTerminate);
	}

	inline void SetDuring(const std::string& s)
	{
		std::size_t n = 0;
		for (char c : s)
		{
			if (n + 1 >= 255)
				break;
			if (c == '"' || c == '\\' || static_cast<unsigned char>(c) < 32)
				c = '_';
			During()[n++] = c;
		}
		During()[n] = 0;
		::alarm(20);
	}

	// JSON event under construction. Integers are clamped to TLC's 32-bit range.
	class Ev
	{
		public:
			explicit Ev(const std::string& op) { m_s = "{\"op\":\"" + op + "\""; }

			static ll Clamp(ll v)
			{
				if (v > 2147483647LL) return 2147483647LL;
				if (v < -2147483647LL) return -2147483647LL;
				return v;
			}

			Ev& i(const char* k, ll v) { m_s += ",\""; m_s += k; m_s += "\":"; m_s += std::to_string(Clamp(v)); return *this; }
			// sizes: the "not found" value becomes -1
			Ev& sz(const char* k, std::size_t v) { return i(k, v == std::size_t(-1) ? -1 : (v > 2000000000u ? 2000000000LL : ll(v))); }
			Ev& b(const char* k, bool v) { return i(k, v ? 1 : 0); }
			Ev& s(const char* k, const std::string& v) { m_s += ",\""; m_s += k; m_s += "\":\"" + v + "\""; return *this; }
			template<typename C> Ev& arr(const char* k, const C& c)
			{
				m_s += ",\""; m_s += k; m_s += "\":[";
				bool first = true;
				for (const auto& v : c)
				{
					if (!first) m_s += ',';
					first = false;
					m_s += std::to_string(Clamp(ll(v)));
				}
				m_s += ']';
				return *this;
			}
			template<typename C> Ev& arr2(const char* k, const C& c)
			{
				m_s += ",\""; m_s += k; m_s += "\":[";
				bool first = true;
				for (const auto& v : c)
				{
					if (!first) m_s += ',';
					first = false;
					m_s += '[';
					bool f2 = true;
					for (const auto& w : v)
					{
						if (!f2) m_s += ',';
						f2 = false;
						m_s += std::to_string(Clamp(ll(w)));
					}
					m_s += ']';
				}
				m_s += ']';
				return *this;
			}
			template<typename C> Ev& sarr(const char* k, const C& c)
			{
				m_s += ",\""; m_s += k; m_s += "\":[";
				bool first = true;
				for (const auto& v : c)
				{
					if (!first) m_s += ',';
					first = false;
					m_s += "\"" + v + "\"";
				}
				m_s += ']';
				return *this;
			}
			Ev& raw(const char* k, const std::string& json) { m_s += ",\""; m_s += k; m_s += "\":" + json; return *this; }
			// bits of an integer, least significant first
			template<typename T> Ev& bits(const char* k, T v, unsigned width = sizeof(T) * 8)
			{
				std::vector<int> r(width);
				for (unsigned n = 0; n < width; ++n)
					r[n] = int((static_cast<unsigned long long>(v) >> n) & 1u);
				return arr(k, r);
			}
			// integer of any size, as spec/Big.tla represents it
			template<typename T> static std::vector<ll> Big(T v)
			{
				unsigned __int128 m;
				std::vector<ll> r;
				if (static_cast<__int128>(v) == 0) return { 0 };
				bool neg = false;
				if constexpr (static_cast<T>(-1) < static_cast<T>(1)) neg = v < 0;
				m = neg ? -static_cast<unsigned __int128>(static_cast<__int128>(v)) : static_cast<unsigned __int128>(v);
				r.push_back(neg ? -1 : 1);
				for (; m != 0; m >>= 12) r.push_back(ll(m & 4095u));
				return r;
			}
			template<typename T> Ev& big(const char* k, T v) { return arr(k, Big(v)); }
			std::string str() const { return m_s + "}"; }
			void emit()
			{
				m_s += "}\n";
				Buffer() += m_s;
				++EventCount();
				Flush();
			}

		private:
			std::string m_s;
	};

	inline std::vector<Op> ReadScript(const char* path)
	{
		std::vector<Op> r;
		std::ifstream in(path);
		std::string line;
		while (std::getline(in, line))
		{
			if (line.empty() || line[0] == '#')
				continue;
			std::istringstream ss(line);
			Op op;
			ss >> op.name;
			std::string tok;
			while (ss >> tok)
			{
				auto eq = tok.find('=');
				if (eq == std::string::npos)
					continue;
				std::vector<ll> vals;
				std::string v = tok.substr(eq + 1);
				std::size_t p = 0;
				while (p < v.size())
				{
					std::size_t c = v.find(',', p);
					if (c == std::string::npos)
						c = v.size();
					vals.push_back(ll(std::strtoll(v.substr(p, c - p).c_str(), nullptr, 0)));
					p = c + 1;
				}
				op.args[tok.substr(0, eq)] = vals;
			}
			r.push_back(std::move(op));
		}
		return r;
	}

	inline std::string Describe(const Op& op)
	{
		std::string s = op.name;
		for (auto& [k, v] : op.args)
		{
			s += " " + k + "=";
			for (std::size_t n = 0; n < v.size() && n < 8; ++n)
				s += (n ? "," : "") + std::to_string(v[n]);
		}
		return s;
	}

	// modulo into [0, n)
	inline std::size_t Mod(ll v, std::size_t n)
	{
		if (n == 0)
			return 0;
		ll m = v % ll(n);
		return std::size_t(m < 0 ? m + ll(n) : m);
	}

	// 64-bit value given as up to four 16-bit limbs (least significant first)
	inline std::uint64_t Wide(const Op& op, const char* k)
	{
		std::uint64_t v = 0;
		auto l = op.list(k);
		for (std::size_t n = 0; n < l.size() && n < 4; ++n)
			v |= (std::uint64_t(l[n]) & 0xFFFFu) << (16 * n);
		return v;
	}

#ifdef NZV_THREADED
	// Scenarios dealt to several threads at once, each with objects and a trace of its own
	template<typename F> void RunThreads(int count, const std::vector<Op>& script, const std::string& cfg, const std::string& trace, F& run)
	{
		std::vector<std::vector<Op>> parts{ std::size_t(count), std::vector<Op>{} };
		std::size_t at = std::size_t(count) - 1;
		for (const Op& op : script)
		{
			if (op.name == "Begin")
				at = (at + 1) % std::size_t(count);
			parts[at].push_back(op);
		}
		std::atomic<int> waiting{ count };
		std::vector<std::thread> threads;
		for (int n = 0; n < count; ++n)
			threads.emplace_back([&, n]
			{
				OutFd() = ::open((trace + "." + std::to_string(n)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
				--waiting;
				while (waiting.load() > 0)
					std::this_thread::yield();
				run(parts[std::size_t(n)], cfg);
				During()[0] = 0;
				Ev("End").emit();
				Flush();
			});
		for (std::thread& t : threads)
			t.join();
	}
#endif

	// argv: script trace config
	template<typename F> int Main(int argc, char** argv, F run)
	{
		if (argc < 3)
		{
			std::fprintf(stderr, "usage: %s script trace [config]\n", argv[0]);
			return 2;
		}
		OutFd() = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (OutFd() < 0)
			return 2;
		Install();
		std::vector<Op> script = ReadScript(argv[1]);
		std::string cfg = argc > 3 ? argv[3] : "";
#ifdef NZV_THREADED
		RunThreads(std::atoi(std::getenv("NZV_THREADS")), script, cfg, argv[2], run);
#else
		run(script, cfg);
#endif
		::alarm(0);
		During()[0] = 0;
		Ev("End").emit();
		Flush();
		return 0;
	}
}
