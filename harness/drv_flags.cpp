// Conformance driver of Flags. Enumerator k is bit k of the mask, whether its value is k or 1 << k.
#include "nzv.hpp"
#include <NazaraUtils/Flags.hpp>
#include <unordered_set>

using namespace nzv;

// contiguous enumerations (Max or Count), in and out of a namespace
#define AUTO(Name, Under, Last) enum class Name : Under { First = 0, Max = Last }; constexpr bool EnableEnumAsNzFlags(Name) { return true; }
#define AUTOCOUNT(Name, Under, N) enum class Name : Under { First = 0, Count = N }; constexpr bool EnableEnumAsNzFlags(Name) { return true; }
#define BITS(Name, Under, Last) enum class Name : Under { None = 0, Max = Under(Under(1) << Last) }; \
	constexpr bool EnableEnumAsNzFlags(Name) { return true; } constexpr bool EnableAutoFlagForNzFlags(Name) { return false; }
#define BITSCOUNT(Name, Under, Last) enum class Name : Under { None = 0, Highest = Under(Under(1) << Last), Count }; \
	constexpr bool EnableEnumAsNzFlags(Name) { return true; } constexpr bool EnableAutoFlagForNzFlags(Name) { return false; }
using U8 = std::uint8_t;
using U64 = std::uint64_t;
namespace test
{
	AUTO(A1, int, 0) AUTO(A3, int, 2) AUTO(A8, U8, 7) AUTO(A9, int, 8) AUTO(A16, int, 15) AUTO(A17, U8, 16) AUTO(A31, int, 30) AUTO(A32, int, 31) AUTO(A33, int, 32)
	AUTO(A40, unsigned, 39) AUTO(A63, std::int64_t, 62) AUTO(A64, U8, 63)
	AUTOCOUNT(C5, int, 5) AUTOCOUNT(C64, int, 64) AUTOCOUNT(C33, U64, 33)
	BITS(B1, U8, 0) BITS(B3, int, 2) BITS(B7, U8, 6) BITS(B8, U8, 7) BITS(B16, std::uint16_t, 15) BITS(B31, int, 30) BITS(B32, unsigned, 31) BITS(B33, U64, 32) BITS(B63, std::int64_t, 62) BITS(B64, U64, 63)
	BITSCOUNT(BC3, int, 2) BITSCOUNT(BC9, int, 8) BITSCOUNT(BC40, U64, 39)
}
// specialization of EnumAsFlags
enum class Spec6 { Value0 = 0 };
template<> struct Nz::EnumAsFlags<Spec6> { static constexpr Spec6 max = static_cast<Spec6>(5); };

template<typename E, std::size_t Bits, bool Auto> struct Drv
{
	using F = Nz::Flags<E>;
	using BF = typename F::BitField;
	static constexpr std::size_t N = 3;
	F obj[N] = { F(0), F(0), F(0) };
	std::unordered_set<F> known;

	static constexpr E En(std::size_t k)
	{
		if constexpr (Auto) return static_cast<E>(k);
		else return static_cast<E>(U64(1) << k);
	}
	static std::vector<ll> List(U64 mask)
	{
		std::vector<ll> r;
		for (std::size_t n = 0; n < 64; ++n)
			if ((mask >> n) & 1) r.push_back(ll(n));
		return r;
	}
	static ll Index(E e)
	{
		U64 v = static_cast<U64>(static_cast<std::underlying_type_t<E>>(e));
		if constexpr (Auto) return ll(v);
		else
		{
			if (v == 0 || (v & (v - 1)) != 0) return -1;
			ll n = 0;
			while (v >>= 1) ++n;
			return n;
		}
	}
	static std::vector<ll> State(const F& f) { return List(static_cast<U64>(f)); }
	static std::vector<ll> Iterate(const F& f)
	{
		std::vector<ll> r;
		for (E e : f)
		{
			r.push_back(Index(e));
			if (r.size() > 70) break;
		}
		return r;
	}
	static std::vector<ll> IteratePost(const F& f)
	{
		std::vector<ll> r;
		auto it = f.begin();
		auto last = f.end();
		while (!(it == last))
		{
			auto copy = it++;
			if (!(copy != it)) r.push_back(-5);
			r.push_back(Index(*copy));
			if (r.size() > 70) break;
		}
		return r;
	}
	void Emit(Ev& e, std::size_t o) { e.i("o", ll(o) + 1).arr("s", State(obj[o])); e.emit(); }

	template<std::size_t Ki, std::size_t Ji> void Const()
	{
		constexpr E k = En(Ki), j = En(Ji);
		constexpr F flag(k);
		constexpr F orf = k | j, andf = k & j, xorf = k ^ j, notf = ~k;
		constexpr F all = notf | k;
		constexpr F chain = [] (F a, F b) { F r; r.Set(a); r ^= ~b; r |= F(0); r &= ~F(0); return r; }(flag, F(j));
		constexpr bool test = flag.Test(j);
		Ev e("Const");
		e.i("k", Ki).i("j", Ji).arr("flag", List(F::GetFlagValue(k))).arr("or", State(orf)).arr("and", State(andf)).arr("xor", State(xorf)).arr("not", State(notf))
		 .arr("all", State(all)).arr("chain", State(chain)).b("test", test);
		Emit(e, 0);
	}

	void Step(const Op& op)
	{
		SetDuring(Describe(op));
		std::string n = op.name;
		std::string f;
		auto us = n.find('_');
		if (us != std::string::npos) { f = n.substr(us + 1); n = n.substr(0, us); }
		std::size_t o = Mod(op.get("o"), N), a = Mod(op.get("a"), N), b = Mod(op.get("b"), N);
		std::size_t ki = Mod(op.get("k"), Bits), ji = Mod(op.get("j"), Bits);
		ll how = op.get("how");
		E k = En(ki), j = En(ji);
		if (n == "Begin")
		{
			for (auto& x : obj) x = F(0);
			known.clear();
			Ev e("Begin");
			e.i("n", Bits);
			e.emit();
			Const<0, Bits - 1>();
			Const<Bits - 1, 0>();
			Const<Bits / 2, Bits / 2>();
			Const<Bits - 1, Bits / 3>();
			return;
		}
		if (n == "New")
		{
			std::vector<ll> m = op.list("m");
			for (auto& x : m) x = ll(Mod(x, Bits));
			if (how == 1 || how == 2) m = { ll(ki) };
			if (how == 3) { m.clear(); for (std::size_t x = 0; x < Bits; ++x) m.push_back(ll(x)); }
			U64 mask = 0;
			for (ll x : m) mask |= U64(1) << x;
			if (how == 1) obj[o] = F(k);
			else if (how == 2) obj[o] = k;
			else if (how == 3) obj[o] = F(F::ValueMask);
			else if (mask == 0) obj[o] = F();
			else obj[o] = F(static_cast<BF>(mask));
			Ev e("New");
			e.arr("m", List(mask));
			return Emit(e, o);
		}
		if (n == "Bin")
		{
			how = ll(Mod(how, 4));
			const F& x = obj[a];
			const F& y = obj[b];
			F r;
			if (f == "or") r = how == 0 ? x | y : how == 1 ? x | k : how == 2 ? k | y : k | j;
			else if (f == "and") r = how == 0 ? x & y : how == 1 ? x & k : how == 2 ? k & y : k & j;
			else if (f == "xor") r = how == 0 ? x ^ y : how == 1 ? x ^ k : how == 2 ? k ^ y : k ^ j;
			else return;
			Ev e("Bin");
			e.s("f", f).i("how", how).i("a", ll(a) + 1).i("b", ll(b) + 1).i("k", ll(ki)).i("j", ll(ji));
			obj[o] = r;
			return Emit(e, o);
		}
		if (n == "Self")
		{
			how = ll(Mod(how, 2));
			F& x = obj[o];
			F* ref = &x;
			if (f == "or") { if (op.get("set")) { how ? x.Set(k) : x.Set(obj[a]); } else ref = how ? &(x |= k) : &(x |= obj[a]); }
			else if (f == "and") ref = how ? &(x &= k) : &(x &= obj[a]);
			else if (f == "xor") ref = how ? &(x ^= k) : &(x ^= obj[a]);
			else if (f == "diff") { how ? x.Clear(k) : x.Clear(obj[a]); }
			else return;
			Ev e("Self");
			e.s("f", f).i("how", how).i("a", ll(a) + 1).i("k", ll(ki)).b("ref", ref == &x);
			return Emit(e, o);
		}
		if (n == "Compl")
		{
			how = ll(Mod(how, 2));
			obj[o] = how ? ~k : ~obj[a];
			Ev e("Compl");
			e.i("how", how).i("a", ll(a) + 1).i("k", ll(ki));
			return Emit(e, o);
		}
		if (n == "Clear")
		{
			obj[o].Clear();
			Ev e("Clear");
			return Emit(e, o);
		}
		if (n == "Test")
		{
			how = ll(Mod(how, 2));
			const F& x = obj[o];
			F y = how ? F(k) : obj[a];
			std::hash<F> h;
			Ev e("Test");
			e.i("how", how).i("a", ll(a) + 1).i("k", ll(ki)).b("ret", how ? x.Test(k) : x.Test(obj[a])).b("eq", x == y).b("ne", x != y).b("hash", h(x) == h(y));
			return Emit(e, o);
		}
		if (n == "Intern")
		{
			bool ins = known.insert(obj[o]).second;
			Ev e("Intern");
			e.b("ins", ins).b("found", known.count(obj[o]) == 1).i("size", ll(known.size()));
			return Emit(e, o);
		}
		if (n == "Observe")
		{
			const F& x = obj[o];
			std::vector<std::vector<ll>> iter = { State(x), Iterate(x), IteratePost(x) };
			std::vector<std::vector<ll>> masks = { List(static_cast<U64>(x)), List(static_cast<BF>(x)), List(static_cast<U64>(static_cast<std::int64_t>(x))),
				List(static_cast<U64>(static_cast<unsigned long long>(x))) };
			if constexpr (sizeof(BF) <= 4) masks.push_back(List(static_cast<std::uint32_t>(x)));
			U64 m = 0;
			for (E en : x) m |= F::GetFlagValue(en);
			masks.push_back(List(m));
			Ev e("Observe");
			e.arr("counts", std::vector<ll>{ ll(x.Count()), ll(x.size()) }).b("bool", static_cast<bool>(x)).arr2("iter", iter).arr2("masks", masks);
			return Emit(e, o);
		}
	}
	void Run(const std::vector<Op>& s)
	{
		for (auto& x : s)
			Step(x);
	}
};

static void Run(const std::vector<Op>& s, const std::string& cfg)
{
	using namespace test;
#define CA(Name, N) if (cfg == #Name) return Drv<Name, N, true>().Run(s);
#define CB(Name, N) if (cfg == #Name) return Drv<Name, N, false>().Run(s);
// enumerations are spread over several programs to keep builds short
#if NZV_GROUP == 0
	CA(A1, 1) CA(A64, 64) CB(B8, 8) CB(B31, 31) CB(BC3, 3)
#elif NZV_GROUP == 1
	CA(A3, 3) CA(A33, 33) CA(C5, 5) CB(B33, 33) CB(B64, 64)
#elif NZV_GROUP == 2
	CA(A8, 8) CA(A32, 32) CA(C64, 64) CB(B7, 7) CB(BC40, 40)
#elif NZV_GROUP == 3
	CA(A9, 9) CA(A40, 40) CB(B3, 3) CB(B32, 32) CA(Spec6, 6)
#elif NZV_GROUP == 4
	CA(A16, 16) CA(A63, 63) CB(B1, 1) CB(B63, 63) CB(BC9, 9)
#elif NZV_GROUP == 5
	CA(A17, 17) CA(A31, 31) CA(C33, 33) CB(B16, 16)
#endif
	std::exit(2);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
