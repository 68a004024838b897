// Hashes of one growing text through every overload; string hashes; combined hashes.
// NZV_GEN names a generated header of NZV_TEXT(n, bytes...) lines: hashes evaluated at compile time.
#include "nzv.hpp"
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>

using namespace nzv;
using Digits = std::vector<ll>;

static Digits Nat(Nz::UInt64 v)
{
	Digits d = Ev::Big(v);
	d.erase(d.begin());       // the magnitude alone
	return d;
}

static Digits Halves(Nz::UInt32 v)
{
	return { ll(v >> 16), ll(v & 0xFFFFu) };
}

struct Results
{
	std::vector<Digits> crc, f32, f64;
	void emit() { Ev("Hash").arr2("crc", crc).arr2("f32", f32).arr2("f64", f64).emit(); }
};

#ifdef NZV_CT_BUILD

template<std::size_t N> struct Lit { char c[N + 1]; Nz::UInt8 u[N + 1]; };

template<std::size_t N, typename... A> constexpr Lit<N> MakeLit(A... a)
{
	Lit<N> l{};
	std::size_t n = 0;
	int bytes[] = { a..., 0 };
	for (; n < N; ++n)
	{
		l.c[n] = static_cast<char>(static_cast<unsigned char>(bytes[n]));
		l.u[n] = static_cast<Nz::UInt8>(bytes[n]);
	}
	return l;
}

#define NZV_TEXT(n, hasNul, ...) { \
	static constexpr auto lit = MakeLit<n>(__VA_ARGS__); \
	constexpr std::string_view sv(lit.c, n); \
	Results r; \
	std::vector<int> m; for (std::size_t k = 0; k < n; ++k) m.push_back(lit.u[k]); \
	Ev("Begin").emit(); Ev("Append").arr("m", m).emit(); \
	constexpr Nz::UInt32 c1 = Nz::CRC32(sv); constexpr Nz::UInt32 c2 = Nz::CRC32(lit.u, n); \
	constexpr Nz::UInt32 a1 = Nz::FNV1a32(sv); constexpr Nz::UInt32 a2 = Nz::FNV1a32(lit.u, n); \
	constexpr Nz::UInt64 b1 = Nz::FNV1a64(sv); constexpr Nz::UInt64 b2 = Nz::FNV1a64(lit.u, n); \
	r.crc = { Halves(c1), Halves(c2) }; r.f32 = { Nat(a1), Nat(a2) }; r.f64 = { Nat(b1), Nat(b2) }; \
	if constexpr (!hasNul) { \
		constexpr Nz::UInt32 c3 = Nz::CRC32(&lit.c[0]); constexpr Nz::UInt32 a3 = Nz::FNV1a32(&lit.c[0]); constexpr Nz::UInt64 b3 = Nz::FNV1a64(&lit.c[0]); \
		r.crc.push_back(Halves(c3)); r.f32.push_back(Nat(a3)); r.f64.push_back(Nat(b3)); } \
	r.emit(); }

static void Run(const std::vector<Op>&, const std::string&)
{
#include NZV_GEN
}

#else

template<typename H, typename Put> void Functors(const std::string& text, bool nul, Put put)
{
	std::string_view sv = text;
	std::unique_ptr<Nz::UInt8[]> raw(new Nz::UInt8[text.size()]);
	std::memcpy(raw.get(), text.data(), text.size());
	const Nz::UInt8* bytes = raw.get();
	put(H{}(sv)); put(H{}(text)); put(H{}(bytes, text.size()));
	Nz::HashFunctor<H> f;
	auto same = [&](std::size_t v) { put(v); };
	same(f(sv)); same(f(text)); same(f(bytes, text.size()));
	const H ch; const Nz::HashFunctor<H> cf;      // as a container holds them
	put(ch(sv)); same(cf(sv));
	if (!nul)
	{
		put(H{}(text.c_str())); same(f(text.c_str()));
	}
}

// text of exactly N bytes as a char array
template<std::size_t N, typename Put> void Arrays(const std::string& text, bool nul, Put put)
{
	if constexpr (N <= 8)
	{
		if (text.size() == N && !nul)
		{
			char a[N];
			std::memcpy(a, text.data(), N);
			put(a);
		}
		Arrays<N + 1>(text, nul, put);
	}
}

static void HashAll(const std::string& text)
{
	Results r;
	bool nul = text.find('\0') != std::string::npos;
	std::unique_ptr<Nz::UInt8[]> raw(new Nz::UInt8[text.size()]);
	std::memcpy(raw.get(), text.data(), text.size());
	// a view in the middle of other characters
	std::string around = "\x80(" + text + ")\xFF";
	std::string_view inner(around.data() + 2, text.size());

	auto crc = [&](Nz::UInt32 v) { r.crc.push_back(Halves(v)); };
	auto f32 = [&](Nz::UInt32 v) { r.f32.push_back(Nat(v)); };
	auto f64 = [&](Nz::UInt64 v) { r.f64.push_back(Nat(v)); };
	crc(Nz::CRC32(inner)); crc(Nz::CRC32(text)); crc(Nz::CRC32(raw.get(), text.size()));
	f32(Nz::FNV1a32(inner)); f32(Nz::FNV1a32(text)); f32(Nz::FNV1a32(raw.get(), text.size()));
	f64(Nz::FNV1a64(inner)); f64(Nz::FNV1a64(text)); f64(Nz::FNV1a64(raw.get(), text.size()));
	if (!nul)
	{
		crc(Nz::CRC32(text.c_str())); f32(Nz::FNV1a32(text.c_str())); f64(Nz::FNV1a64(text.c_str()));
	}
	Functors<Nz::CRC32Hash>(text, nul, crc);
	Functors<Nz::FNV1a32Hash>(text, nul, f32);
	Functors<Nz::FNV1a64Hash>(text, nul, f64);
	Arrays<1>(text, nul, [&](auto& a) { constexpr std::size_t N = sizeof(a); crc(Nz::CRC32<N>(a)); f32(Nz::FNV1a32<N>(a)); f64(Nz::FNV1a64<N>(a)); });
	r.emit();
}

template<typename C> void StrHash(const std::string& text, const char* kind)
{
	std::basic_string<C> s;
	for (char c : text)
		s.push_back(static_cast<C>(static_cast<unsigned char>(c)));
	std::basic_string<C> around = s + s;
	std::basic_string_view<C> inner(around.data() + s.size(), s.size());
	const Nz::StringHash<C> h;
	std::vector<Digits> r;
	r.push_back(Nat(h(inner)));
	r.push_back(Nat(h(std::basic_string_view<C>(s))));
	r.push_back(Nat(h(s)));
	r.push_back(Nat(typename Nz::StringHash<C>::hash_type{}(inner)));
	r.push_back(Nat(std::hash<std::basic_string<C>>{}(s)));
	if (s.find(C(0)) == s.npos)
		r.push_back(Nat(h(s.c_str())));
	Ev("StrHash").s("kind", kind).arr2("h", r).emit();
}

static void Run(const std::vector<Op>& script, const std::string&)
{
	std::string text;
	using Eq = std::equal_to<>;
#if __cplusplus >= 202002L
	std::unordered_map<std::string, int, Nz::StringHash<>, Eq> map;
#else
	std::unordered_map<std::string, int, Nz::StringHash<>> map;
#endif
	std::unordered_set<std::string, Nz::HashFunctor<Nz::CRC32Hash>> crcs;
	std::unordered_set<std::string, Nz::FNV1a32Hash> fnvs;
	std::unordered_set<std::string, Nz::HashFunctor<Nz::FNV1a64Hash>> fnv64s;
	for (const Op& op : script)
	{
		SetDuring(Describe(op));
		if (op.name == "Begin") { text.clear(); map.clear(); crcs.clear(); fnvs.clear(); fnv64s.clear(); Ev("Begin").emit(); }
		else if (op.name == "Append")
		{
			std::vector<int> m;
			for (ll x : op.list("m"))
			{
				m.push_back(int(Mod(x, 256)));
				text.push_back(static_cast<char>(static_cast<unsigned char>(m.back())));
			}
			Ev("Append").arr("m", m).emit();
		}
		else if (op.name == "Clear") { text.clear(); Ev("Clear").emit(); }
		else if (op.name == "Hash") HashAll(text);
		else if (op.name == "StrHash")
		{
			StrHash<char>(text, "char"); StrHash<wchar_t>(text, "wchar_t"); StrHash<char16_t>(text, "char16_t"); StrHash<char32_t>(text, "char32_t");
#if __cplusplus >= 202002L
			StrHash<char8_t>(text, "char8_t");
#endif
		}
		else if (op.name == "Intern")
		{
			bool nul = text.find('\0') != std::string::npos;
			auto probe = [&]
			{
				std::vector<int> f;
				f.push_back(map.find(text) != map.end());
#if __cplusplus >= 202002L
				f.push_back(map.find(std::string_view(text)) != map.end());
				if (!nul)
					f.push_back(map.find(text.c_str()) != map.end());
#else
				(void) nul;
#endif
				f.push_back(crcs.count(text) != 0);
				f.push_back(fnvs.count(text) != 0);
				f.push_back(fnv64s.count(text) != 0);
				return f;
			};
			std::vector<int> before = probe();
			bool ins = map.emplace(text, 1).second;
			bool ins2 = crcs.insert(text).second, ins3 = fnvs.insert(text).second, ins4 = fnv64s.insert(text).second;
			Ev("Intern").arr("before", before).i("inserted", ins && ins2 && ins3 && ins4 ? 1 : (ins || ins2 || ins3 || ins4) ? 2 : 0).arr("after", probe()).emit();
		}
		else if (op.name == "Combine")
		{
			std::size_t seed = std::size_t(Wide(op, "a")), s0 = seed;
			Nz::UInt64 v = Wide(op, "b");
			std::size_t h;
			if (op.get("how") == 1) { std::string s = std::to_string(v) + text; h = std::hash<std::string>{}(s); Nz::HashCombine(seed, s); }
			else { h = std::hash<Nz::UInt64>{}(v); Nz::HashCombine(seed, v); }
			Ev("Combine").arr("seed", Nat(s0)).arr("h", Nat(h)).arr("r", Nat(seed)).emit();
		}
		else if (op.name == "CombineAll")
		{
			Nz::UInt64 a = Wide(op, "a"), b = Wide(op, "b"), c = Wide(op, "c");
			int d = int(op.get("d"));
			std::size_t ha = std::hash<Nz::UInt64>{}(a), hb = std::hash<Nz::UInt64>{}(b), hc = std::hash<Nz::UInt64>{}(c), hd = std::hash<int>{}(d), ht = std::hash<std::string>{}(text);
			std::size_t r = 0;
			std::vector<Digits> hs;
			switch (Mod(op.get("how"), 5))
			{
				case 0: r = Nz::HashCombine(a); hs = { Nat(ha) }; break;
				case 1: r = Nz::HashCombine(text, b); hs = { Nat(ht), Nat(hb) }; break;
				case 2: r = Nz::HashCombine(a, b, c); hs = { Nat(ha), Nat(hb), Nat(hc) }; break;
				case 3: r = Nz::HashCombine(a, d, text, b); hs = { Nat(ha), Nat(hd), Nat(ht), Nat(hb) }; break;
				default: r = Nz::HashCombine(c, b, a, b, d); hs = { Nat(hc), Nat(hb), Nat(ha), Nat(hb), Nat(hd) }; break;
			}
			Ev("CombineAll").arr2("h", hs).arr("r", Nat(r)).emit();
		}
	}
}

#endif

int main(int argc, char** argv)
{
	return Main(argc, argv, Run);
}
