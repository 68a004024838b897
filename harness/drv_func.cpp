// References to callables: three narrow (int(int)), two wide (long(short)), seven callables; argument passing.
#include "nzv.hpp"
#include <NazaraUtils/FunctionRef.hpp>
#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <utility>

using namespace nzv;

struct Thrown {};
constexpr int Calls = 7;
static thread_local std::array<int, Calls> acc;
static thread_local std::vector<int> ran;          // callables entered
static thread_local int strangers;                 // calls on an object that is none of ours
static thread_local bool flip;

static int Enter(int c, int delta, int x)
{
	ran.push_back(c);
	acc[std::size_t(c)] += delta;
	if (x == 13)
		throw Thrown{};
	return acc[std::size_t(c)];
}

// an object that knows its own address: a copy would not be where it says
struct Object
{
	const void* self = this;
	Object() = default;
	Object(const Object& o) : self(o.self) {}
	void Here() const { if (self != this) ++strangers; }
};
struct Functor : Object { Functor* operator&() { ++strangers; return nullptr; } int operator()(int x) { Here(); return Enter(0, x, x); } };
struct Constant : Object { int operator()(int x) const { Here(); return Enter(1, x, x); } };
static int Function(int x) { return Enter(3, x, x); }
static int Plus(int x) { return Enter(4, x, x); }
static int Minus(int x) { return Enter(4, -x, x); }
struct Both : Object
{
	// a reference calls the object it names, which the caller keeps: never the operators meant for temporaries
	int operator()(int x) & { Here(); return Enter(6, x, x); }
	int operator()(int x) const& { Here(); return Enter(6, 100 * x, x); }
	int operator()(int x) && { ++strangers; return Enter(6, x + 1, x); }
	int operator()(int x) const&& { ++strangers; return Enter(6, x + 1, x); }
	const Both* operator&() const { ++strangers; return nullptr; }
};

static thread_local Functor functor;
static const Constant constant;
static thread_local auto lambda = [tag = 5](int x) { if (tag != 5) ++strangers; return Enter(2, x, x); };
static thread_local int (*pointer)(int) = Plus;
static thread_local std::function<int(int)> wrapped = [](int x) { return Enter(5, x, x); };
static thread_local Both both;

using NarrowRef = Nz::FunctionRef<int(int)>;
using WideRef = Nz::FunctionRef<long(short)>;
using VoidRef = Nz::FunctionRef<void(int)>;
constexpr int Refs = 7;

template<typename R> static R Make(int c, bool konst, bool temporary)
{
	if (temporary)       // given as one would give a temporary, but it lives on
	{
		switch (c)
		{
			case 0: return R(std::move(functor));
			case 1: return R(std::move(constant));
			case 2: if (konst) return R(std::move(std::as_const(lambda))); else return R(std::move(lambda));
			case 5: if (konst) return R(std::move(std::as_const(wrapped))); else return R(std::move(wrapped));
			case 6: if (konst) return R(std::move(std::as_const(both))); else return R(std::move(both));
			default: break;
		}
	}
	switch (c)
	{
		case 0: return R(functor);
		case 1: return R(constant);
		case 2: if (konst) return R(std::as_const(lambda)); else return R(lambda);
		case 3: return R(Function);
		case 4: return R(pointer);
		case 5: if (konst) return R(std::as_const(wrapped)); else return R(wrapped);
		default: if (konst) return R(std::as_const(both)); else return R(both);
	}
}

// ---- arguments
struct Arg
{
	int v = 0;
	const void* id = this;             // where the caller's object is
	static inline thread_local int copies = 0, moves = 0;
	explicit Arg(int n) : v(n) {}
	Arg(const Arg& a) : v(a.v), id(a.id) { ++copies; }
	Arg(Arg&& a) noexcept : v(std::exchange(a.v, -1)), id(a.id) { ++moves; }
	Arg& operator=(const Arg&) = delete;
};
struct Seen { int got = -9; bool same = false, lvalue = false, konst = false; int calls = 0; };
static thread_local Seen seen;
template<typename T> static void Look(T&& a)
{
	using R = std::remove_reference_t<T>;
	++seen.calls;
	seen.got = a.v;
	seen.same = (static_cast<const void*>(&a) == a.id);
	seen.lvalue = std::is_lvalue_reference<T>::value;
	seen.konst = std::is_const<R>::value;
}
struct Any { template<typename T> int operator()(T&& a) const { Look(std::forward<T>(a)); return 3; } };
struct Host
{
	int n = 3;
	int Value(Arg a) { Look(std::move(a)); return n; }
};
template<typename P> struct Exact { int operator()(P a) { Look(std::forward<P>(a)); return 3; } };

template<typename P> static void Pass(const char* param, bool lvalue, int v, int how)
{
	Arg::copies = Arg::moves = 0;
	seen = Seen{};
	Arg a(v);
	a.id = &a;
	Any any;
	Exact<P> exact;
	int ret = -1;
	auto go = [&](auto& ref)
	{
		if constexpr (std::is_lvalue_reference_v<P>)
		{
			if constexpr (std::is_const_v<std::remove_reference_t<P>>)
			{
				if (!lvalue)
					return ref(std::move(a));
			}
			return ref(a);
		}
		else if constexpr (std::is_rvalue_reference_v<P>)
			return ref(std::move(a));
		else
			return lvalue ? ref(a) : ref(std::move(a));
	};
	if (how == 0) { Nz::FunctionRef<int(P)> r(any); ret = go(r); }
	else if (how == 1) { Nz::FunctionRef<int(P)> r(exact); ret = go(r); }
	else { Nz::FunctionRef<long(P)> r(any); Nz::FunctionRef<long(P)> s(r); ret = int(go(s)); }
	bool given = lvalue || std::is_lvalue_reference_v<P>;
	if (std::is_rvalue_reference_v<P>) given = false;
	if (std::is_lvalue_reference_v<P> && std::is_const_v<std::remove_reference_t<P>>) given = lvalue;
	Ev("Pass").s("param", param).s("given", given ? "lvalue" : "rvalue").i("v", v).i("how", how).i("got", seen.got).b("same", seen.same).b("lvalue", seen.lvalue)
		.b("konst", seen.konst).i("calls", seen.calls).i("copies", Arg::copies).i("left", a.v).i("ret", ret).emit();
}

// results: references come back as the callable's own, values are not copied
static void Results(int v, int how)
{
	Arg a(v);
	a.id = &a;
	Arg::copies = 0;
	bool same = true;
	int got = -9;
	if (how == 0)
	{
		auto f = [](Arg& x) -> Arg& { return x; };
		Nz::FunctionRef<Arg&(Arg&)> r(f);
		Arg& o = r(a);
		same = &o == &a; got = o.v;
	}
	else if (how == 1)
	{
		auto f = [&a](int n) -> const Arg& { a.v = n; return a; };
		Nz::FunctionRef<const Arg&(int)> r(f);
		const Arg& o = r(v);
		same = &o == &a; got = o.v;
	}
	else if (how == 2)
	{
		auto f = [&a]() -> Arg&& { return std::move(a); };
		Nz::FunctionRef<Arg&&()> r(f);
		Arg&& o = r();
		same = &o == &a; got = o.v;
	}
	else if (how == 3)
	{
		auto f = [](int n) { return std::make_unique<int>(n); };
		Nz::FunctionRef<std::unique_ptr<int>(int)> r(f);
		got = *r(v);
	}
	else if (how == 4)
	{
		Nz::FunctionRef<void(int)> r(nullptr);
		auto f = [&got](int n) -> int { got = n; return 77; };
		r = Nz::FunctionRef<void(int)>(f);
		r(v);
	}
	else if (how == 5)
	{
		int Host::*field = &Host::n;
		Host h;
		h.n = v;
		Nz::FunctionRef<int&(Host&)> r(field);
		same = &r(h) == &h.n; got = r(h);
	}
	else if (how == 6)
	{
		int (Host::*method)(Arg) = &Host::Value;
		Host h;
		h.n = v;
		Nz::FunctionRef<int(Host*, Arg)> r(method);
		got = r(&h, std::move(a));
		same = seen.got == v;
	}
	else if (how == 7)
	{
		int s = 0;
		auto f = [&s](int x, const Arg& y, Arg&& z, std::unique_ptr<int> p) { s = x + y.v + z.v + *p; };
		Nz::FunctionRef<void(int, const Arg&, Arg&&, std::unique_ptr<int>)> r(f);
		Arg b(v);
		r(1, a, std::move(b), std::make_unique<int>(v));
		got = s - 1 - 2 * v;
	}
	Ev("Result").i("v", v).i("how", how).i("got", got).b("same", same).i("copies", Arg::copies).emit();
}

struct World
{
	std::array<NarrowRef, 3> nar{ NarrowRef(nullptr), NarrowRef(nullptr), NarrowRef(nullptr) };
	std::array<WideRef, 2> wid{ WideRef(nullptr), WideRef(nullptr) };
	std::array<VoidRef, 2> vod{ VoidRef(nullptr), VoidRef(nullptr) };
	// what may be called without leaving the contract
	std::array<int, Refs> live{};            // 0 null, 1 callable, 2 + n: narrow reference n

	Ev& State(Ev& e)
	{
		std::vector<int> bools;
		for (auto& r : nar) bools.push_back(bool(r) ? 1 : 0);
		for (auto& r : wid) bools.push_back(bool(r) ? 1 : 0);
		for (auto& r : vod) bools.push_back(bool(r) ? 1 : 0);
		return e.arr("bools", bools).arr("acc", acc).i("strangers", strangers);
	}
	bool CanCall(int r) const
	{
		int k = live[std::size_t(r)];
		return k == 1 || (k >= 2 && live[std::size_t(k - 2)] == 1);
	}
	// the reference numbered r
	template<typename F> auto With(int r, F&& f)
	{
		if (r < 3) f(nar[std::size_t(r)]);
		else if (r < 5) f(wid[std::size_t(r - 3)]);
		else f(vod[std::size_t(r - 5)]);
	}
	static int Class(int r) { return r < 3 ? 0 : r < 5 ? 1 : 2; }
	void Invoke(int r, int x)
	{
		if (!CanCall(r))
			return;
		ran.clear();
		Ev e("Invoke");
		e.i("r", r).i("x", x);
		try
		{
			if (Class(r) == 2)
			{
				std::as_const(vod[std::size_t(r - 5)])(x);
				e.s("out", "void");
			}
			else
			{
				long v = (r < 3) ? long(std::as_const(nar[std::size_t(r)])(x)) : std::as_const(wid[std::size_t(r - 3)])(short(x));
				e.s("out", "value").i("ret", v);
			}
		}
		catch (const Thrown&) { e.s("out", "threw"); }
		catch (...) { e.s("out", "other"); }
		State(e.arr("ran", ran)).emit();
	}
	void Exec(const Op& op)
	{
		int r = int(Mod(op.get("r"), Refs)), s = int(Mod(op.get("s"), Refs)), c = int(Mod(op.get("c"), Calls));
		Ev e(op.name);
		if (op.name == "Bind")
		{
			bool m = op.get("m") != 0;
			if (c == 1) m = true;
			if (m && c != 1 && c != 2 && c != 5 && c != 6) m = false;
			With(r, [&](auto& ref) { ref = Make<std::decay_t<decltype(ref)>>(c, m, op.get("how") % 2 != 0); });
			live[std::size_t(r)] = 1;
			e.i("r", r).i("c", c).s("m", m ? "const" : "obj");
		}
		else if (op.name == "BindRef")
		{
			int w = 3 + r % 4, n = int(Mod(op.get("n"), 3));
			auto go = [&](auto& ref)
			{
				using R = std::decay_t<decltype(ref)>;
				if (op.get("how") % 2) ref = R(std::as_const(nar[std::size_t(n)])); else ref = nar[std::size_t(n)];
			};
			if (w < 5) go(wid[std::size_t(w - 3)]); else go(vod[std::size_t(w - 5)]);
			live[std::size_t(w)] = 2 + n;
			e.i("r", w).i("n", n);
		}
		else if (op.name == "Null")
		{
			With(r, [](auto& ref) { ref = nullptr; });
			live[std::size_t(r)] = 0;
			e.i("r", r);
		}
		else if (op.name == "Copy" || op.name == "Swap")
		{
			if (Class(r) != Class(s))
				return;
			int how = int(Mod(op.get("how"), 4));
			auto go = [&](auto& a, auto& b)
			{
				using R = std::decay_t<decltype(a)>;
				if (op.name == "Swap") std::swap(a, b);
				else if (how == 0) a = b;
				else if (how == 1) a = std::as_const(b);
				else if (how == 2) { R t(b); a = std::move(t); }
				else { R t(std::as_const(b)); R u(std::move(t)); a = u; }
			};
			if (r < 3) go(nar[std::size_t(r)], nar[std::size_t(s)]); else if (r < 5) go(wid[std::size_t(r - 3)], wid[std::size_t(s - 3)]); else go(vod[std::size_t(r - 5)], vod[std::size_t(s - 5)]);
			if (op.name == "Swap") std::swap(live[std::size_t(r)], live[std::size_t(s)]); else live[std::size_t(r)] = live[std::size_t(s)];
			e.i("r", r).i("s", s);
		}
		else if (op.name == "SetAcc")
		{
			acc[std::size_t(c)] = int(op.get("v"));
			e.i("c", c).i("v", op.get("v"));
		}
		else if (op.name == "Flip")
		{
			flip = !flip;
			pointer = flip ? Minus : Plus;
		}
		else
			return;
		State(e).emit();
	}
};

static void Run(const std::vector<Op>& script, const std::string&)
{
	std::optional<World> w;
	for (const Op& op : script)
	{
		if (op.name == "Begin")
		{
			w.emplace();
			acc.fill(0);
			strangers = 0;
			flip = false;
			pointer = Plus;
			Ev("Begin").emit();
		}
		else if (op.name == "Invoke")
			w->Invoke(int(Mod(op.get("r"), Refs)), int(op.get("x")));
		else if (op.name == "Pass")
		{
			bool lv = op.get("given") % 2 != 0;
			int v = int(op.get("v")), how = int(Mod(op.get("how"), 3));
			switch (Mod(op.get("param"), 4))
			{
				case 0: Pass<Arg>("value", lv, v, how); break;
				case 1: Pass<Arg&>("lref", lv, v, how); break;
				case 2: Pass<const Arg&>("cref", lv, v, how); break;
				default: Pass<Arg&&>("rref", lv, v, how); break;
			}
		}
		else if (op.name == "Result")
			Results(int(op.get("v")), int(Mod(op.get("how"), 8)));
		else
			w->Exec(op);
	}
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
