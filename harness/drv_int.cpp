// Integer mathematics: one call per line (config: type name).
// NZV_GEN names a generated header of NZV_CT(type, function, a, b, c) lines: calls evaluated at compile time.
#include "nzv.hpp"
#include <NazaraUtils/MathUtils.hpp>
#include <type_traits>

using namespace nzv;
using ull = unsigned long long;

enum Fn { Align, AlignPow2, Approach, Clamp, NearestPow2, RoundToPow2, Log2, Log2Pot, Pow, IsPow2, Mod_, MultiplyAdd, NumberEquals, SameNumber, FnCount };
static const char* const Names[] = { "Align", "AlignPow2", "Approach", "Clamp", "NearestPow2", "RoundToPow2", "Log2", "Log2Pot", "Pow", "IsPow2", "Mod", "MultiplyAdd", "NumberEquals", "SameNumber" };

template<int F, typename T> constexpr auto Do(T a, T b, T c)
{
	(void) b; (void) c;
	if constexpr (F == Align) return Nz::Align(a, b);
	else if constexpr (F == AlignPow2) return Nz::AlignPow2(a, b);
	else if constexpr (F == Approach) return Nz::Approach(a, b, c);
	else if constexpr (F == Clamp) return Nz::Clamp(a, b, c);
	else if constexpr (F == NearestPow2) return Nz::GetNearestPowerOfTwo(a);
	else if constexpr (F == RoundToPow2) return Nz::RoundToPow2(a);
	else if constexpr (F == Log2) return Nz::IntegralLog2(a);
	else if constexpr (F == Log2Pot) return Nz::IntegralLog2Pot(a);
	else if constexpr (F == Pow) return Nz::IntegralPow(a, static_cast<unsigned int>(b));
	else if constexpr (F == IsPow2) return Nz::IsPow2(a);
	else if constexpr (F == Mod_) return Nz::Mod(a, b);
	else if constexpr (F == MultiplyAdd) return Nz::MultiplyAdd(a, b, c);
	else if constexpr (F == NumberEquals) return Nz::NumberEquals(a, b, c);
	else return Nz::NumberEquals(a, b);
}

template<typename T> void Begin(const char* when)
{
	Ev("Begin").i("w", sizeof(T) * 8).b("sg", std::is_signed_v<T>).s("when", when).emit();
}

template<typename T, typename R> void Log(int f, T a, T b, T c, R r)
{
	// a result of the same type, a logarithm or a truth value
	auto res = [&] { if constexpr (std::is_same_v<R, bool>) return Ev::Big(r ? 1 : 0); else return Ev::Big(r); }();
	Ev("Call").s("f", Names[f]).big("a", a).big("b", b).big("c", c).arr("r", res).emit();
}

#ifdef NZV_CT_BUILD

#define NZV_TYPE(type) Begin<type>("constant");
#define NZV_CT(type, fn, a, b, c) { constexpr auto r = Do<fn, type>(static_cast<type>(a), static_cast<type>(b), static_cast<type>(c)); \
	Log<type>(fn, static_cast<type>(a), static_cast<type>(b), static_cast<type>(c), r); }

static void Run(const std::vector<Op>&, const std::string&)
{
#include NZV_GEN
}

#else

template<typename T> T Hide(T v)
{
	volatile T h = v;
	return h;
}

template<typename T> T Arg(const Op& op, const char* k)
{
	return static_cast<T>(Wide(op, k));
}

template<typename T, int F = 0> void Call(const Op& op, int f)
{
	if constexpr (F < FnCount)
	{
		if (F != f)
			return Call<T, F + 1>(op, f);

		T a = Hide(Arg<T>(op, "a")), b = Hide(Arg<T>(op, "b")), c = Hide(Arg<T>(op, "c"));
		Log<T>(F, a, b, c, Do<F, T>(a, b, c));
	}
}

template<typename T, int F = 0> void RowOf(const Op& op, int f)
{
	if constexpr (F < FnCount)
	{
		if (F != f)
			return RowOf<T, F + 1>(op, f);

		T b = Hide(T(op.get("b"))), c = Hide(T(op.get("c")));
		std::vector<ll> as, rs;
		for (ll x : op.list("a"))
		{
			T a = Hide(T(x));
			as.push_back(ll(a));
			rs.push_back(ll(Do<F, T>(a, b, c)));
		}
		Ev("Row").s("f", Names[f]).i("b", b).i("c", c).arr("a", as).arr("r", rs).emit();
	}
}

template<typename T> void RunType(const std::vector<Op>& script)
{
	for (const Op& op : script)
	{
		SetDuring(Describe(op));
		if (op.name == "Begin") { Begin<T>("run"); continue; }
		int f = 0;
		std::string name = op.name;
		bool row = name.size() > 4 && name.compare(0, 4, "Row_") == 0;
		if (row)
			name = name.substr(4);
		while (f < FnCount && name != Names[f])
			++f;
		if (row)
		{
			if constexpr (sizeof(T) <= 2)
				RowOf<T>(op, f);
		}
		else
			Call<T>(op, f);
	}
}

static void Run(const std::vector<Op>& script, const std::string& cfg)
{
	if (cfg == "i8") RunType<Nz::Int8>(script);
	else if (cfg == "u8") RunType<Nz::UInt8>(script);
	else if (cfg == "i16") RunType<Nz::Int16>(script);
	else if (cfg == "u16") RunType<Nz::UInt16>(script);
	else if (cfg == "i32") RunType<Nz::Int32>(script);
	else if (cfg == "u32") RunType<Nz::UInt32>(script);
	else if (cfg == "i64") RunType<Nz::Int64>(script);
	else if (cfg == "u64") RunType<Nz::UInt64>(script);
	else if (cfg == "ll") RunType<long long>(script);
	else if (cfg == "ull") RunType<unsigned long long>(script);
}

#endif

int main(int argc, char** argv)
{
	return Main(argc, argv, Run);
}
