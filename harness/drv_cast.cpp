// Checked casts: one cast per line.
// NZV_GEN names a generated header of NZV_CT(from, to, index) lines: casts tried in constant evaluation.
#include "nzv.hpp"
#include "trap.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <cmath>
#include <csetjmp>
#include <cstring>
#include <limits>
#include <memory>
#include <type_traits>

using namespace nzv;

enum class E8 : Nz::Int8 {};
enum class EU8 : Nz::UInt8 {};
enum E16 : Nz::Int16 {};
enum class EU32 : Nz::UInt32 {};
enum class E64 : Nz::Int64 {};
enum class EU64 : Nz::UInt64 {};

template<typename... T> struct List {};
using Types = List<Nz::Int8, Nz::UInt8, Nz::Int16, Nz::UInt16, Nz::Int32, Nz::UInt32, Nz::Int64, Nz::UInt64, long long, unsigned long long,
                   bool, char, E8, EU8, E16, EU32, E64, EU64, float, double>;
static const char* const TypeNames[] = { "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "ll", "ull", "bool", "char", "E8", "EU8", "E16", "EU32", "E64", "EU64", "float", "double" };
constexpr int TypeCount = 20;
template<int N, typename L> struct AtImpl;
template<int N, typename H, typename... T> struct AtImpl<N, List<H, T...>> : AtImpl<N - 1, List<T...>> {};
template<typename H, typename... T> struct AtImpl<0, List<H, T...>> { using type = H; };
template<int N> using At = typename AtImpl<N, Types>::type;

template<typename T, bool = std::is_enum_v<T>> struct Under { using type = T; };
template<typename T> struct Under<T, true> { using type = std::underlying_type_t<T>; };

template<typename T> std::string TypeJson()
{
	using U = typename Under<T>::type;
	if constexpr (std::is_floating_point_v<U>)
		return "{\"k\":\"flt\",\"w\":" + std::to_string(sizeof(U) * 8) + "}";
	else
		return "{\"k\":\"int\",\"w\":" + std::to_string(std::is_same_v<U, bool> ? 1 : sizeof(U) * 8) + ",\"sg\":" + (std::is_signed_v<U> ? "true" : "false") + "}";
}

static std::string BigJson(const std::vector<ll>& v)
{
	std::string s = "[";
	for (std::size_t n = 0; n < v.size(); ++n)
		s += (n ? "," : "") + std::to_string(v[n]);
	return s + "]";
}

// exact value: an integer, or a mantissa and an exponent
template<typename T> std::string ValueJson(T v)
{
	if constexpr (std::is_enum_v<T>)
		return ValueJson(static_cast<std::underlying_type_t<T>>(v));
	else if constexpr (std::is_floating_point_v<T>)
	{
		if (!(v == v)) return "{\"c\":3,\"m\":[0],\"e\":0}";
		if (v == std::numeric_limits<T>::infinity()) return "{\"c\":1,\"m\":[0],\"e\":0}";
		if (v == -std::numeric_limits<T>::infinity()) return "{\"c\":2,\"m\":[0],\"e\":0}";
		int e = 0;
		T f = std::frexp(v, &e);
		auto m = static_cast<long long>(std::ldexp(f, std::numeric_limits<T>::digits));
		return "{\"c\":0,\"m\":" + BigJson(Ev::Big(m)) + ",\"e\":" + std::to_string(e - std::numeric_limits<T>::digits) + "}";
	}
	else if constexpr (std::is_same_v<T, bool>)
	{
		unsigned char c;
		std::memcpy(&c, &v, 1);
		return "{\"c\":0,\"m\":" + BigJson(Ev::Big(static_cast<int>(c))) + ",\"e\":0}";
	}
	else
		return "{\"c\":0,\"m\":" + BigJson(Ev::Big(v)) + ",\"e\":0}";
}

#ifdef NZV_CT_BUILD

// is SafeCast<To>(value) a constant expression?
template<typename V, typename To, typename = void> struct IsConstant : std::false_type {};
template<typename V, typename To> struct IsConstant<V, To, std::void_t<std::integral_constant<bool, (static_cast<void>(Nz::SafeCast<To>(V::Get())), true)>>> : std::true_type {};

template<typename V, typename F, typename T> void Const()
{
	Ev e("Cast");
	e.s("how", "constant").raw("f", TypeJson<F>()).raw("t", TypeJson<T>()).raw("v", ValueJson(V::Get()));
	if constexpr (IsConstant<V, T>::value)
	{
		constexpr T r = Nz::SafeCast<T>(V::Get());
		e.s("out", "value").raw("r", ValueJson(r)).emit();
	}
	else
		e.s("out", "assert").raw("r", "{\"c\":0,\"m\":[0],\"e\":0}").emit();
}

#define NZV_CT(n, f, t, value) struct V##n { static constexpr At<f> Get() { return value; } };
#include NZV_GEN
#undef NZV_CT

static void Run(const std::vector<Op>&, const std::string&)
{
	Ev("Begin").b("chk", Checked).emit();
#define NZV_CT(n, f, t, value) Const<V##n, At<f>, At<t>>();
#include NZV_GEN
}

#else

template<typename F> F Decode(std::uint64_t v)
{
	if constexpr (std::is_same_v<F, bool>)
		return (v & 1) != 0;
	else if constexpr (std::is_floating_point_v<F>)
	{
		F r;
		std::memcpy(&r, &v, sizeof(F));
		return r;
	}
	else
		return static_cast<F>(v);
}

template<int FI, int TI> void DoCast(std::uint64_t bits, int how)
{
	using F = At<FI>;
	using T = At<TI>;
	F src = Decode<F>(bits);
	static thread_local T r;
	r = T{};
	static const char* const hows[] = { "temporary", "variable", "constant variable", "deferred", "deferred temporary", "moved" };
	SetDuring(std::string(TypeNames[FI]) + " to " + TypeNames[TI] + " " + hows[how] + " " + std::to_string(bits));
	F copy = src;
	const F& constant = src;
	bool ok = Attempt([&]
	{
		switch (how)
		{
			case 0: r = Nz::SafeCast<T>(F(src)); break;
			case 1: r = Nz::SafeCast<T>(src); break;
			case 2: r = Nz::SafeCast<T>(constant); break;
			case 3: { T t = Nz::SafeCaster(src); r = t; break; }
			case 4: { T t = Nz::SafeCaster(F(src)); r = t; break; }
			default: r = Nz::SafeCast<T>(std::move(src)); break;
		}
	});
	Ev e("Cast");
	e.s("how", hows[how]).raw("f", TypeJson<F>()).raw("t", TypeJson<T>()).raw("v", ValueJson(copy)).s("out", ok ? "value" : "assert").raw("r", ValueJson(r));
	e.b("kept", std::memcmp(&src, &copy, sizeof(F)) == 0);
	e.emit();
}

// is the value representable?  Only consulted when nothing is checked: other casts are then out of contract.
template<int FI, int TI> bool Representable(std::uint64_t bits)
{
	using F = typename Under<At<FI>>::type;
	using T = typename Under<At<TI>>::type;
	F v = Decode<F>(bits);
	if constexpr (std::is_floating_point_v<F> && std::is_floating_point_v<T>)
		return std::isfinite(v) && (sizeof(T) >= sizeof(F) || std::fabs(v) <= static_cast<F>(std::numeric_limits<T>::max()));
	else if constexpr (std::is_floating_point_v<T>)
		return true;
	else if constexpr (std::is_floating_point_v<F>)
		return std::isfinite(v) && std::trunc(v) == v && v < std::ldexp(F(1), std::numeric_limits<T>::digits) && v >= static_cast<F>(std::numeric_limits<T>::lowest());
	else
		return static_cast<__int128>(v) >= static_cast<__int128>(std::numeric_limits<T>::lowest()) && static_cast<__int128>(v) <= static_cast<__int128>(std::numeric_limits<T>::max());
}

using CastFn = void (*)(std::uint64_t, int);
using RepFn = bool (*)(std::uint64_t);
template<int... N> void Fill(CastFn* c, RepFn* r, std::integer_sequence<int, N...>)
{
	((c[N] = &DoCast<N / TypeCount, N % TypeCount>, r[N] = &Representable<N / TypeCount, N % TypeCount>), ...);
}

/*** pointers and integers ***/

template<typename T> void PtrToInt(std::uint64_t addr)
{
	SetDuring("PointerToInteger");
	auto* p = reinterpret_cast<char*>(static_cast<std::uintptr_t>(addr));
	static thread_local T r;
	r = T{};
	if (!Checked && static_cast<unsigned __int128>(addr) > static_cast<unsigned __int128>(std::numeric_limits<T>::max()))
		return;
	bool ok = Attempt([&] { r = Nz::PointerToInteger<T>(p); });
	Ev("PtrToInt").raw("t", TypeJson<T>()).big("a", addr).s("out", ok ? "value" : "assert").big("r", r).emit();
}

template<typename T> void IntToPtr(std::uint64_t bits)
{
	SetDuring("IntegerToPointer");
	T v = static_cast<T>(bits);
	if (!Checked && static_cast<__int128>(v) < 0)
		return;
	static thread_local const void* r;
	r = nullptr;
	bool ok = Attempt([&] { r = Nz::IntegerToPointer<const void*>(v); });
	Ev("IntToPtr").raw("f", TypeJson<T>()).big("v", v).s("out", ok ? "value" : "assert").big("r", reinterpret_cast<std::uintptr_t>(r)).emit();
}

/*** classes ***/

struct A { virtual ~A() = default; int a = 1; };
struct B : A { int b = 2; };
struct C : B { int c = 3; };
struct D : A { int d = 4; };
struct Side { virtual ~Side() = default; long s = 5; };
struct M : Side, B { int m = 6; };

struct Object
{
	std::unique_ptr<C> c; std::unique_ptr<A> a; std::unique_ptr<B> b; std::unique_ptr<D> d; std::unique_ptr<M> m; std::unique_ptr<Side> s;
};

template<typename X> const char* Name()
{
	if constexpr (std::is_same_v<X, A>) return "A";
	else if constexpr (std::is_same_v<X, B>) return "B";
	else if constexpr (std::is_same_v<X, C>) return "C";
	else if constexpr (std::is_same_v<X, D>) return "D";
	else if constexpr (std::is_same_v<X, M>) return "M";
	else return "Side";
}

template<typename To, typename From> void DownPtr(From* p, const char* dyn, void* self, bool truly, int how)
{
	if (!Checked && p && !truly)
		return;
	const char* const hows[] = { "pointer", "constant pointer", "pointer variable", "reference", "constant reference", "deferred pointer" };
	how %= p ? 6 : 3;
	SetDuring(std::string("cast of ") + dyn + " from " + Name<From>() + " to " + Name<To>() + " " + hows[how]);
	static thread_local const To* r;
	r = nullptr;
	const From* cp = p;
	bool ok = Attempt([&]
	{
		switch (how)
		{
			case 0: r = Nz::SafeCast<To*>(static_cast<From*>(p)); break;
			case 1: r = Nz::SafeCast<const To*>(cp); break;
			case 2: r = Nz::SafeCast<To*>(p); break;
			case 3: r = &Nz::SafeCast<To&>(*p); break;
			case 4: r = &Nz::SafeCast<const To&>(*cp); break;
			default: { To* t = Nz::SafeCaster(p); r = t; break; }
		}
	});
	Ev e("Class");
	e.s("how", hows[how]).s("dyn", dyn).s("from", Name<From>()).s("to", Name<To>()).b("null", p == nullptr).s("out", ok ? "value" : "assert");
	// does the result designate the very object?
	e.i("same", !ok ? 0 : p == nullptr ? (r == nullptr) : (truly && dynamic_cast<const void*>(r) == self)).emit();
}

template<typename X> void Classes(int from, int to, int how, bool null)
{
	X x;
	const char* dyn = Name<X>();
	void* self = dynamic_cast<void*>(&x);
	auto run = [&](auto* root)
	{
		using From = std::remove_pointer_t<decltype(root)>;
		auto* p = null ? nullptr : root;
		auto cast = [&](auto* tag)
		{
			using To = std::remove_pointer_t<decltype(tag)>;
			if constexpr (std::is_base_of_v<From, To> || std::is_base_of_v<To, From>)
				DownPtr<To>(p, dyn, self, std::is_base_of_v<To, X>, how);
		};
		switch (to % 6)
		{
			case 0: cast(static_cast<A*>(nullptr)); break;
			case 1: cast(static_cast<B*>(nullptr)); break;
			case 2: cast(static_cast<C*>(nullptr)); break;
			case 3: cast(static_cast<D*>(nullptr)); break;
			case 4: cast(static_cast<M*>(nullptr)); break;
			default: cast(static_cast<Side*>(nullptr)); break;
		}
	};
	auto see = [&](auto* tag)
	{
		using From = std::remove_pointer_t<decltype(tag)>;
		if constexpr (std::is_base_of_v<From, X>)
			run(static_cast<From*>(&x));
	};
	switch (from % 6)
	{
		case 0: see(static_cast<A*>(nullptr)); break;
		case 1: see(static_cast<B*>(nullptr)); break;
		case 2: see(static_cast<C*>(nullptr)); break;
		case 3: see(static_cast<D*>(nullptr)); break;
		case 4: see(static_cast<M*>(nullptr)); break;
		default: see(static_cast<Side*>(nullptr)); break;
	}
}

static void Run(const std::vector<Op>& script, const std::string&)
{
	Trap();
	thread_local CastFn casts[TypeCount * TypeCount];
	thread_local RepFn reps[TypeCount * TypeCount];
	Fill(casts, reps, std::make_integer_sequence<int, TypeCount * TypeCount>());
	for (const Op& op : script)
	{
		if (op.name == "Begin")
			Ev("Begin").b("chk", Checked).emit();
		else if (op.name == "Cast")
		{
			int n = int(Mod(op.get("f"), TypeCount)) * TypeCount + int(Mod(op.get("t"), TypeCount));
			std::uint64_t v = Wide(op, "v");
			if (Checked || reps[n](v))
				casts[n](v, int(Mod(op.get("how"), 6)));
		}
		else if (op.name == "PtrToInt" || op.name == "IntToPtr")
		{
			bool p = op.name == "PtrToInt";
			std::uint64_t v = Wide(op, "v");
			switch (Mod(op.get("t"), 6))
			{
				case 0: p ? PtrToInt<Nz::UInt64>(v) : IntToPtr<Nz::UInt64>(v); break;
				case 1: p ? PtrToInt<Nz::Int64>(v) : IntToPtr<Nz::Int64>(v); break;
				case 2: p ? PtrToInt<Nz::UInt32>(v) : IntToPtr<Nz::UInt32>(v); break;
				case 3: p ? PtrToInt<Nz::Int32>(v) : IntToPtr<Nz::Int32>(v); break;
				case 4: p ? PtrToInt<Nz::UInt16>(v) : IntToPtr<Nz::UInt16>(v); break;
				default: p ? PtrToInt<Nz::Int8>(v) : IntToPtr<Nz::Int8>(v); break;
			}
		}
		else if (op.name == "Class")
		{
			int f = int(op.get("f")), t = int(op.get("t")), how = int(Mod(op.get("how"), 6));
			bool null = op.get("null") != 0;
			switch (Mod(op.get("dyn"), 6))
			{
				case 0: Classes<A>(f, t, how, null); break;
				case 1: Classes<B>(f, t, how, null); break;
				case 2: Classes<C>(f, t, how, null); break;
				case 3: Classes<D>(f, t, how, null); break;
				case 4: Classes<M>(f, t, how, null); break;
				default: Classes<Side>(f, t, how, null); break;
			}
		}
	}
}
#endif

int main(int argc, char** argv) { return Main(argc, argv, Run); }
