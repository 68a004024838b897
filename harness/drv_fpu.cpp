// Floating-point helpers: one call per line, on the bits of its arguments.
// NZV_GEN names a generated header of NZV_CT(index, function, type, a, b, c) lines: calls tried in constant evaluation.
#include "nzv.hpp"
#include "trap.hpp"
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/Constants.hpp>
#include <cmath>
#include <cstring>
#include <limits>
#include <type_traits>

using namespace nzv;

static std::string Digits(unsigned long long m, bool neg)
{
	if (m == 0)
		return "[0]";
	std::string s = neg ? "[-1" : "[1";
	for (; m; m >>= 12)
		s += "," + std::to_string(m & 4095);
	return s + "]";
}

// exact value of a floating-point number or an integer
template<typename T> std::string Value(T v)
{
	if constexpr (std::is_floating_point_v<T>)
	{
		if (!(v == v)) return "{\"c\":3,\"m\":[0],\"e\":0}";
		if (v == std::numeric_limits<T>::infinity()) return "{\"c\":1,\"m\":[0],\"e\":0}";
		if (v == -std::numeric_limits<T>::infinity()) return "{\"c\":2,\"m\":[0],\"e\":0}";
		bool neg = v < 0;
		int e = 0;
		T f = std::frexp(neg ? -v : v, &e);
		auto m = static_cast<unsigned long long>(std::ldexp(f, std::numeric_limits<T>::digits));
		return "{\"c\":0,\"m\":" + Digits(m, neg) + ",\"e\":" + std::to_string(e - std::numeric_limits<T>::digits) + "}";
	}
	else
	{
		bool neg = v < T(0);
		unsigned long long m = static_cast<unsigned long long>(v);
		return "{\"c\":0,\"m\":" + Digits(neg ? 0 - m : m, neg) + ",\"e\":0}";
	}
}

enum Fn { FIsFinite, FIsInfinity, FIsNaN, FMod, FClamp, FApproach, FMultiplyAdd, FEquals, FEqualsDefault, FLerp, FLerpOther, FLerpInt, FLerpLong, FToRadian, FToDegree, FCount };
static const char* const FnNames[] = { "IsFinite", "IsInfinity", "IsNaN", "Mod", "Clamp", "Approach", "MultiplyAdd", "NumberEquals", "NumberEqualsDefault", "Lerp", "LerpOther", "LerpInt", "LerpLong", "DegreeToRadian", "RadianToDegree" };
static const int FnArgs[] = { 1, 1, 1, 2, 3, 3, 3, 3, 2, 3, 3, 3, 3, 1, 1 };

template<int F, typename T> constexpr auto Call(T a, [[maybe_unused]] T b, [[maybe_unused]] T c)
{
	if constexpr (F == FIsFinite) return Nz::IsFinite(a);
	else if constexpr (F == FIsInfinity) return Nz::IsInfinity(a);
	else if constexpr (F == FIsNaN) return Nz::IsNaN(a);
	else if constexpr (F == FMod) return Nz::Mod(a, b);
	else if constexpr (F == FClamp) return Nz::Clamp(a, b, c);
	else if constexpr (F == FApproach) return Nz::Approach(a, b, c);
	else if constexpr (F == FMultiplyAdd) return Nz::MultiplyAdd(a, b, c);
	else if constexpr (F == FEquals) return Nz::NumberEquals(a, b, c);
	else if constexpr (F == FEqualsDefault) return Nz::NumberEquals(a, b);
	else if constexpr (F == FLerp) return Nz::Lerp(a, b, c);
	// the factor has a type of its own
	else if constexpr (F == FLerpOther) return Nz::Lerp(a, b, static_cast<std::conditional_t<sizeof(T) == 4, double, float>>(c));
	else if constexpr (F == FLerpInt) return Nz::Lerp(static_cast<int>(a), static_cast<int>(b), c);
	else if constexpr (F == FLerpLong) return Nz::Lerp(static_cast<long long>(a), static_cast<long long>(b), c);
	else if constexpr (F == FToRadian) return Nz::DegreeToRadian(a);
	else return Nz::RadianToDegree(a);
}

template<typename R> void Report(Ev& e, R r)
{
	if constexpr (std::is_same_v<R, bool>)
		e.b("r", r);
	else
		e.raw("r", Value(r));
}

template<int F, typename T> Ev Start(T a, T b, T c, const char* how)
{
	Ev e("F");
	e.s("fn", FnNames[F]).s("how", how).i("w", sizeof(T) * 8);
	std::string args = "[";
	const T v[] = { a, b, c };
	for (int n = 0; n < FnArgs[F]; ++n)
		args += (n ? "," : "") + (F == FLerpInt && n < 2 ? Value(static_cast<int>(v[n])) : F == FLerpLong && n < 2 ? Value(static_cast<long long>(v[n])) : F == FLerpOther && n == 2 && sizeof(T) == 8 ? Value(static_cast<float>(v[n])) : Value(v[n]));
	e.raw("a", args + "]");
	return e;
}

template<typename T> void FloatConstants(const char* how)
{
	constexpr int w = sizeof(T) == 16 ? 80 : sizeof(T) * 8;
#define NZV_C(N) { T deferred = Nz::N(); constexpr T typed = Nz::N<T>(); \
	Ev("Const").s("name", #N).s("how", how).i("w", w).raw("r", Value(typed)).raw("d", Value(deferred)).emit(); }
	NZV_C(Infinity) NZV_C(NaN) NZV_C(MaxValue) NZV_C(MinValue) NZV_C(HalfPi) NZV_C(Pi) NZV_C(Sqrt2) NZV_C(Sqrt3) NZV_C(Sqrt5) NZV_C(Tau)
#undef NZV_C
	Ev("BitCount").i("w", sizeof(T) * CHAR_BIT).i("r", int(Nz::BitCount<T>)).emit();
}

template<typename T> void IntConstants()
{
#define NZV_C(N) { T deferred = Nz::N(); constexpr T typed = Nz::N<T>(); \
	Ev("IntConst").s("name", #N).i("w", sizeof(T) * CHAR_BIT).b("sg", std::is_signed_v<T>).raw("r", Value(typed)).raw("d", Value(deferred)).emit(); }
	NZV_C(MaxValue) NZV_C(MinValue)
#undef NZV_C
	Ev("BitCount").i("w", sizeof(T) * CHAR_BIT).i("r", int(Nz::BitCount<T>)).emit();
}

template<int W, typename S, typename U> void IntTypes()
{
	auto one = [](const char* kind, int bits, bool sg, bool integral) { Ev("TypeOf").s("kind", kind).i("w", W).i("bits", bits).b("sg", sg).b("integral", integral).emit(); };
	one("signed", sizeof(S) * CHAR_BIT, std::is_signed_v<S>, std::is_integral_v<S>);
	one("unsigned", sizeof(U) * CHAR_BIT, std::is_signed_v<U>, std::is_integral_v<U>);
}

static void Constants()
{
	Ev("Begin").emit();
	FloatConstants<float>("float");
	FloatConstants<double>("double");
	FloatConstants<long double>("long double");
	IntConstants<Nz::Int8>(); IntConstants<Nz::UInt8>(); IntConstants<Nz::Int16>(); IntConstants<Nz::UInt16>();
	IntConstants<Nz::Int32>(); IntConstants<Nz::UInt32>(); IntConstants<Nz::Int64>(); IntConstants<Nz::UInt64>();
	IntConstants<long long>(); IntConstants<unsigned long long>(); IntConstants<std::size_t>(); IntConstants<char>();
	IntTypes<8, typename Nz::SignedIntegerType<8>::type, typename Nz::UnsignedIntegerType<8>::type>();
	IntTypes<16, typename Nz::SignedIntegerType<16>::type, typename Nz::UnsignedIntegerType<16>::type>();
	IntTypes<32, typename Nz::SignedIntegerType<32>::type, typename Nz::UnsignedIntegerType<32>::type>();
	IntTypes<64, typename Nz::SignedIntegerType<64>::type, typename Nz::UnsignedIntegerType<64>::type>();
	Ev("TypeOf").s("kind", "float").i("w", 32).i("bits", sizeof(Nz::FloatType<32>::type) * CHAR_BIT).b("sg", true).b("integral", std::is_integral_v<Nz::FloatType<32>::type>).emit();
	Ev("TypeOf").s("kind", "float").i("w", 64).i("bits", sizeof(Nz::FloatType<64>::type) * CHAR_BIT).b("sg", true).b("integral", std::is_integral_v<Nz::FloatType<64>::type>).emit();
}

#ifdef NZV_CT_BUILD

using F32 = float;
using F64 = double;
#define NZV_INF(T) std::numeric_limits<T>::infinity()
#define NZV_NAN(T) std::numeric_limits<T>::quiet_NaN()
template<typename V, typename = void> struct IsConstant : std::false_type {};
template<typename V> struct IsConstant<V, std::void_t<std::integral_constant<bool, (static_cast<void>(V::Get()), true)>>> : std::true_type {};

template<typename V> void Const()
{
	auto e = Start<V::Function>(V::A(), V::B(), V::C(), "constant");
	if constexpr (IsConstant<V>::value)
	{
		constexpr auto r = V::Get();
		Report(e, r);
	}
	else
		e.b("none", true);
	e.emit();
}

#define NZV_CT(n, f, t, a, b, c) struct V##n { static constexpr int Function = f; static constexpr t A() { return a; } static constexpr t B() { return b; } static constexpr t C() { return c; } \
	static constexpr auto Get() { return Call<f, t>(A(), B(), C()); } };
#include NZV_GEN
#undef NZV_CT

static void Run(const std::vector<Op>&, const std::string&)
{
	Constants();
#define NZV_CT(n, f, t, a, b, c) Const<V##n>();
#include NZV_GEN
}

#else

template<int F, typename T> void One(const Op& op)
{
	auto arg = [&](const char* k)
	{
		std::uint64_t v = Wide(op, k);
		T r;
		std::memcpy(&r, &v, sizeof(r));
		return r;
	};
	T a = arg("a"), b = arg("b"), c = arg("c");
	if (F == FClamp && !(b <= c))               // bounds are ordered
		std::swap(b, c);
	if (F == FClamp && !(b <= c))
		return;
	if (F == FApproach && !(a == a && b == b && c >= 0))
		return;
	if (F == FLerpInt || F == FLerpLong)
	{
		if (!std::isfinite(a) || !std::isfinite(b) || !std::isfinite(c))
			return;
		T range = F == FLerpInt ? T(1 << 28) : T(1ll << 60);
		a = std::fmod(a, range);
		b = std::fmod(b, range);
		c = std::fmod(c, T(2));
	}
	SetDuring(std::string(FnNames[F]) + " " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c));
	static thread_local T va, vb, vc;
	va = a; vb = b; vc = c;
	auto e = Start<F>(a, b, c, "run");
	Report(e, Call<F, T>(va, vb, vc));
	e.emit();
}

using OneFn = void (*)(const Op&);
template<int... N> void Fill(OneFn* f, OneFn* d, std::integer_sequence<int, N...>)
{
	((f[N] = &One<N, float>, d[N] = &One<N, double>), ...);
}

static void Run(const std::vector<Op>& script, const std::string&)
{
	thread_local OneFn f[FCount], d[FCount];
	Fill(f, d, std::make_integer_sequence<int, FCount>());
	for (const Op& op : script)
	{
		if (op.name == "Begin")
			Constants();
		else if (op.name == "F")
			(op.get("w") == 32 ? f : d)[Mod(op.get("fn"), FCount)](op);
	}
}
#endif

int main(int argc, char** argv) { return Main(argc, argv, Run); }
