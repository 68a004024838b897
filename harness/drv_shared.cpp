// Conformance driver of Threads: objects of every kind used by several threads at once, each of them either by one
// thread alone or only read, and the library's functions called by all.
#undef NZV_THREADED // threads of its own
#include "nzv.hpp"
#include <algorithm>
#include <thread>
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Assert.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <NazaraUtils/TypeList.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <atomic>
#include <map>
#include <random>
#include <thread>
#include <unordered_map>

using namespace nzv;
using Rng = std::minstd_rand;

static std::string Plain(std::string_view s)
{
	std::string r;
	for (char c : s)
	{
		unsigned char b = static_cast<unsigned char>(c);
		if ((b >= '0' && b <= '9') || (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z') || b == ' ' || b == ':' || b == '<' || b == '>' || b == ',')
			r += c;
		else
		{
			r += '_';
			r += "0123456789abcdef"[b >> 4];
			r += "0123456789abcdef"[b & 15];
		}
	}
	return r;
}
static void One(std::string& r, const std::string& v) { r += v; }

static void One(std::string& r, std::string_view v) { r += v; }
template<typename T> std::enable_if_t<std::is_arithmetic_v<T>> One(std::string& r, T v) { r += std::to_string(v); }
template<typename... T> std::string Text(const T&... v)
{
	std::string r;
	((One(r, v), r += ' '), ...);
	return r;
}
template<typename C> std::string All(const C& c)
{
	std::string r;
	for (const auto& v : c) { One(r, v); r += ' '; }
	return r;
}
static std::string Word(unsigned n)
{
	std::string r;
	for (unsigned k = 0; k < n % 29; ++k)
		r += char('a' + (n / 7 + k * (n % 5 + 1)) % 26);
	return r + std::to_string(n);
}

struct Thing
{
	virtual ~Thing() = default;
	virtual void write(unsigned) {}
	virtual unsigned keys() const = 0;
	virtual std::string read(unsigned key) const = 0;
};

template<typename B> struct TBitset : Thing
{
	B a{}, b{};
	TBitset() { write(3); }
	void write(unsigned n) override
	{
		switch (n % 6)
		{
			case 0: a.Resize(n % 60, n % 4 > 1); b.Resize(n % 47); break;
			case 1: for (unsigned k = 0; k < 20; ++k) a.UnboundedSet((n / 3 + k * 7) % 64); break;
			case 2: b = a; if (b.GetSize() > 0) b.Reverse(); break;
			case 3: a.Clear(); a.AppendBits(std::uint16_t(n * 2654435761u), 16); b.Clear(); b.AppendBits(std::uint32_t(n * 40503u), 27); break;
			case 4: a.Resize(40); a.Set(); a.ShiftLeft(n % 17); break;
			case 5: a.PerformsXOR(a, b); break;
		}
	}
	unsigned keys() const override { return 16; }
	std::string read(unsigned key) const override
	{
		switch (key)
		{
			case 0: return a.ToString();
			case 1: return Text(a.Count(), b.Count(), a.GetSize(), a.GetBlockCount(), a.GetCapacity());
			case 2: { std::string r; for (std::size_t n = a.FindFirst(); n != B::npos; n = a.FindNext(n)) r += Text(n); return r; }
			case 3: { std::string r; for (std::size_t n : a.IterBits()) r += Text(n); return r; }
			case 4: return Text(a.TestAll(), a.TestAny(), a.TestNone(), a.Intersects(b), b.Intersects(a));
			case 5: return Text(a == b, a != b, a < b, a <= b, a > b, a >= b);
			case 6: return (a & b).ToString();
			case 7: return (a | b).ToString();
			case 8: return (a ^ b).ToString();
			case 9: return (~a).ToString();
			case 10: return Text((a << 5).ToString(), (a >> 3).ToString());
			case 11: { B c(a); c.Flip(); return c.ToString(); }
			case 12: { std::string r; for (std::size_t n = 0; n < 70; ++n) r += Text(a.UnboundedTest(n)); return r; }
			case 13: { std::string r; for (std::size_t n = 0; n < a.GetSize(); ++n) r += Text(a.Test(n), a[n]); return r; }
			case 14: { std::string r; for (std::size_t n = 0; n < a.GetBlockCount(); ++n) r += Text(a.GetBlock(n)); return r; }
			default: { B c(b); c &= a; B d; d.PerformsOR(a, c); return d.ToString(); }
		}
	}
};

template<typename V> struct TVec : Thing
{
	V v;
	TVec() { for (unsigned k = 0; k < 3; ++k) v.push_back(Word(k * 31)); }
	void write(unsigned n) override
	{
		switch (n % 5)
		{
			case 0: if (v.size() < 5) v.push_back(Word(n)); else v.pop_back(); break;
			case 1: v.resize(n % 6, Word(n)); break;
			case 2: if (!v.empty()) v.erase(v.begin() + std::ptrdiff_t(n % v.size())); break;
			case 3: if (v.size() < 5) v.insert(v.begin(), Word(n)); break;
			case 4: v.clear(); for (unsigned k = 0; k < n % 6; ++k) v.emplace_back(Word(n + k)); break;
		}
	}
	unsigned keys() const override { return 7; }
	std::string read(unsigned key) const override
	{
		switch (key)
		{
			case 0: return All(v);
			case 1: return Text(v.size(), v.empty(), v.capacity(), v.max_size() > 4);
			case 2: { std::string r; for (auto it = v.rbegin(); it != v.rend(); ++it) r += *it; return r; }
			case 3: return v.empty() ? "" : Text(v.front(), v.back(), v[v.size() / 2], v.data()[0]);
			case 4: { if constexpr (std::is_copy_constructible_v<V>) { V c(v); return All(c); } return All(v); }
			case 5: { if constexpr (std::is_copy_assignable_v<V>) { V c; c.push_back("x"); c = v; return Text(All(c), c.size()); } return All(v); }
			default: { std::string r; for (auto it = v.cbegin(); it != v.cend(); ++it) r += *it; return r + Text(std::size_t(v.end() - v.begin())); }
		}
	}
};
using Hybrid = Nz::HybridVector<std::string, 3>;
using Fixed = Nz::FixedVector<std::string, 5>;
struct StackV : Nz::StackVector<std::string>
{
	static std::string* Room() { return static_cast<std::string*>(::operator new(5 * sizeof(std::string))); }
	std::string* room;
	StackV(std::string* r = Room()) : Nz::StackVector<std::string>(r, 5), room(r) {}
	~StackV() { clear(); ::operator delete(room); }
};

struct TArray : Thing
{
	std::string* room = static_cast<std::string*>(::operator new(5 * sizeof(std::string)));
	Nz::StackArray<std::string>* a = new Nz::StackArray<std::string>(room, 5);
	~TArray() override { delete a; ::operator delete(room); }
	void write(unsigned n) override { if (n % 4 == 0) a->fill(Word(n)); else (*a)[n % 5] = Word(n); }
	unsigned keys() const override { return 2; }
	std::string read(unsigned key) const override
	{
		const Nz::StackArray<std::string>& c = *a;
		if (key == 0) return All(c);
		std::string r;
		for (auto it = c.crbegin(); it != c.crend(); ++it) r += *it;
		return r + Text(c.front(), c.back(), c[2], c.size(), c.empty());
	}
};

struct TPool : Thing
{
	Nz::MemoryPool<std::string> pool{ 3 };
	std::vector<std::size_t> ids;
	TPool() { for (unsigned k = 0; k < 5; ++k) write(4 * k + 1); }
	void write(unsigned n) override
	{
		if ((n % 4 == 0 || ids.size() > 9) && !ids.empty())
		{
			std::size_t k = n % ids.size();
			pool.Free(ids[k]);
			ids.erase(ids.begin() + std::ptrdiff_t(k));
		}
		else
		{
			std::size_t id;
			pool.Allocate(id, Word(n));
			ids.push_back(id);
		}
	}
	unsigned keys() const override { return 4; }
	std::string read(unsigned key) const override
	{
		switch (key)
		{
			case 0: return Text(pool.GetAllocatedEntryCount(), pool.GetFreeEntryCount(), pool.GetBlockCount(), pool.GetBlockSize());
			case 1: { std::string r; for (auto it = pool.begin(); it != pool.end(); ++it) r += Text(*it, it.GetIndex()); return r; }
			case 2: { std::string r; for (const std::string& s : pool) r += s; return r; }
			default: { std::string r; for (std::size_t id : ids) r += *pool.RetrieveFromIndex(id); return r; }
		}
	}
};

struct TResult : Thing
{
	using R = Nz::Result<std::string, std::string>;
	using RV = Nz::Result<void, std::string>;
	R r = Nz::Ok(std::string("first value of all"));
	RV v = Nz::Ok();
	void write(unsigned n) override
	{
		if (n % 2) r = Nz::Ok(Word(n)); else r = Nz::Err(Word(n));
		if (n % 3) v = Nz::Ok(); else v = Nz::Err(Word(n));
	}
	unsigned keys() const override { return 6; }
	std::string read(unsigned key) const override
	{
		switch (key)
		{
			case 0: return Text(r.IsOk(), r.IsErr(), bool(r), v.IsOk(), v.IsErr(), bool(v));
			case 1: return r.IsOk() ? Text(r.GetValue(), *r, r->size()) : r.GetError();
			case 2: { R c(r); return Text(c.IsOk() ? c.GetValue() : c.GetError(), c.GetValueOr(std::string("none"))); }
			case 3: return r.GetValueOr(std::string("other"));
			case 4: { auto m = r.Map([](const std::string& s) { return s.size(); }); return m.IsOk() ? Text(m.GetValue()) : m.GetError(); }
			default: { RV c(v); auto m = v.Map([] { return 12; }); return Text(c.IsOk() ? std::string("ok") : c.GetError(), m.IsOk() ? Text(m.GetValue()) : m.GetError()); }
		}
	}
};

struct TImpl : Thing
{
	Nz::PrivateImpl<std::string, 64> inl{ std::string("inline") };
	Nz::PrivateImpl<std::string, 0> heap{ std::string("heap") };
	void write(unsigned n) override
	{
		*inl = Word(n);
		heap.Reset();
		if (n % 4 != 0) heap.Emplace(Word(n + 1));
	}
	unsigned keys() const override { return 4; }
	std::string read(unsigned key) const override
	{
		switch (key)
		{
			case 0: return Text(*inl, inl->size(), *inl.Get());
			case 1: return heap.HasValue() ? Text(*heap, heap->size(), bool(heap)) : "nothing";
			case 2: { Nz::PrivateImpl<std::string, 64> c(inl); return *c; }
			default: { Nz::PrivateImpl<std::string, 0> c(heap); return c.HasValue() ? *c : "nothing"; }
		}
	}
};

enum class Enum { A, B, C, D, Max = D };
enum class Flag { A, B, C, D, E, F, G, H, I, J, Max = J };
constexpr bool EnableEnumAsNzFlags(Flag) { return true; }

struct TEnum : Thing
{
	Nz::EnumArray<Enum, std::string> a;
	Nz::Flags<Flag> f, g;
	void write(unsigned n) override
	{
		if (n % 5 == 0) a.fill(Word(n)); else a[Enum(n % 4)] = Word(n);
		f ^= Flag(n % 10);
		if (n & 16) g |= Flag(n % 10); else g.Clear();
	}
	unsigned keys() const override { return 5; }
	std::string read(unsigned key) const override
	{
		switch (key)
		{
			case 0: return All(a);
			case 1: { std::string r; for (auto&& [e, v] : a.iter_kv()) r += Text(int(e), v); return r; }
			case 2: { Nz::EnumArray<Enum, std::string> c(a); return Text(c[Enum::A], c[Enum::D], a == c, a.size()); }
			case 3: { std::string r; for (Flag e : f) r += Text(int(e)); return r; }
			default: return Text((f & g).Test(Flag::C), (f | g) == f, (~f).Test(Flag::J), f.Test(Flag::A), bool(f ^ g), std::hash<Nz::Flags<Flag>>{}(f), static_cast<unsigned>(f));
		}
	}
};

struct TPtrs : Thing
{
	std::string word[6];
	Nz::SparsePtr<const std::string> sp{ &word[0], int(2 * sizeof(std::string)) };
	Nz::MovablePtr<std::string> mp{ &word[1] };
	Nz::MovableValue<std::string> mv{ std::string("valued") };
	Nz::MovableLiteral<int, 7> ml{ 3 };
	void write(unsigned n) override
	{
		word[n % 6] = Word(n);
		sp.Reset(&word[n % 2], int((n % 3) * sizeof(std::string)));
		mp = &word[n % 5];
		mv = Word(n + 2);
		ml = int(n % 1000);
	}
	unsigned keys() const override { return 4; }
	std::string read(unsigned key) const override
	{
		switch (key)
		{
			case 0: return Text(*sp, sp[1], sp[2], sp->size(), *(sp + 1), sp.GetStride());
			case 1: { Nz::SparsePtr<const std::string> c(sp); ++c; c += 1; return Text(*c, c == sp, sp.GetStride() != 0 ? c - sp : 2, c >= sp); }
			case 2: { Nz::MovablePtr<std::string> c(mp); return Text(*mp, mp->size(), *c.Get(), bool(mp)); }
			default: { Nz::MovableValue<std::string> c(mv); Nz::MovableLiteral<int, 7> d(ml); return Text(mv.Get(), c.Get(), ml.Get(), d.Get()); }
		}
	}
};

struct TSignal : Thing
{
	using S = Nz::Signal<int>;
	S sig;
	std::vector<S::Connection> con;
	S::ConnectionGuard guard;
	TSignal() { for (unsigned k = 0; k < 4; ++k) write(k); }
	void write(unsigned n) override
	{
		switch (n % 5)
		{
			case 0: case 1: case 2: if (con.size() < 7) con.push_back(sig.Connect([](int) {})); else con.erase(con.begin()); break;
			case 3: if (!con.empty()) con[n % con.size()].Disconnect(); guard.Connect(sig, [](int) {}); break;
			case 4: if (n % 3 == 0) sig.Clear(); else guard.Disconnect(); sig(5); break;
		}
	}
	unsigned keys() const override { return 3; }
	std::string read(unsigned key) const override
	{
		std::string r;
		switch (key)
		{
			case 0: for (const auto& c : con) r += Text(c.IsConnected()); break;
			case 1: for (const auto& c : con) { S::Connection d(c); r += Text(d.IsConnected()); } break;
			default: { S other(sig); r = Text(guard.IsConnected()); auto c = other.Connect([](int) {}); other(3); r += Text(c.IsConnected()); break; }
		}
		return r;
	}
};

struct TFunc : Thing
{
	struct Adder { unsigned by; std::string name; std::string operator()(int v) const { return name + std::to_string(v + int(by)); } };
	Adder add{ 4, "add" };
	Nz::FunctionRef<std::string(int)> ref{ add };
	void write(unsigned n) override { add.by = n % 1000; add.name = Word(n); ref = add; }
	unsigned keys() const override { return 2; }
	std::string read(unsigned key) const override
	{
		if (key == 0) return ref(5);
		Nz::FunctionRef<std::string(int)> c(ref);
		return Text(c(9), ref(8));
	}
};

// Functions of the library, and constants
struct A0 { int a, b; };
template<typename...> struct Tpl {};
struct TLib : Thing
{
	std::map<std::string, int> map{ { "alpha", 1 }, { "beta", 2 } };
	std::unordered_map<std::string, int, Nz::StringHash<>, std::equal_to<>> names{ { "alpha", 1 }, { "beta", 2 } };
	unsigned keys() const override { return 24 * 8; }
	std::string read(unsigned key) const override
	{
		unsigned n = (key / 24) * 1237 + 11;
		std::string w = Word(n);
		switch (key % 24)
		{
			case 0: return Text(Nz::TypeName<A0>(), Nz::TypeName<int>());
			case 1: return Text(Nz::TypeName<std::vector<int>>(), Nz::TypeName<Tpl<A0, int>>(), Nz::TypeName<Nz::Bitset<>>());
			case 2: return Text(Nz::CRC32(std::string_view(w)), Nz::CRC32(reinterpret_cast<const Nz::UInt8*>(w.data()), w.size()), Nz::CRC32(w.c_str()));
			case 3: return Text(Nz::FNV1a32(std::string_view(w)), Nz::FNV1a64(std::string_view(w)), Nz::FNV1a32(w.c_str()), Nz::FNV1a64(w.c_str()));
			case 4: { std::size_t s = n; Nz::HashCombine(s, w); return Text(s, Nz::HashCombine(w, n, 5)); }
			case 5: return Text(Nz::StringHash<>{}(w), Nz::StringHash<>{}(std::string_view(w)), names.count("alpha"), names.find("beta")->second);
			case 6: { auto u = Nz::ToUtf8String(w); return Text(std::string(Nz::FromUtf8String(u)), u.size()); }
			case 7: return Text(Nz::PathToString(Nz::Utf8Path("dir_" + w)), Nz::PathToString(Nz::Utf8Path("a") / Nz::Utf8Path(w)));
			case 8: return Text(Nz::ReverseBits(Nz::UInt32(n * 2654435761u)), Nz::ByteSwap(Nz::UInt64(n) * 1234567891011ull), Nz::CountBits(n), Nz::FindFirstBit(n), Nz::FindLastBit(n));
			case 9: { char buf[9]; for (unsigned k = 0; k < 9; ++k) buf[k] = char('a' + (n + k) % 26); Nz::SwapBytes(buf, 9); return std::string(buf, 9); }
			case 10: return Text(Nz::IntegralLog2(n), Nz::GetNearestPowerOfTwo(n), Nz::IntegralPow(3u, n % 20), Nz::IsPow2(n), Nz::Align(n, 24u), Nz::AlignPow2(n, 32u));
			case 11: return Text(Nz::Approach(int(n), 40, 7), Nz::Clamp(int(n), 3, 500), Nz::Mod(int(n), 37), Nz::MultiplyAdd(int(n), 3, 4), Nz::Lerp(double(n), 12.0, 0.25));
			case 12: return Text(Nz::DegreeToRadian(double(n)), Nz::RadianToDegree(double(n)), Nz::NumberEquals(double(n), 11.0), Nz::IsFinite(double(n)), Nz::IsNaN(float(n)));
			case 13: return Text(Nz::HostToBigEndian(Nz::UInt32(n)), Nz::BigEndianToHost(Nz::UInt16(n)), Nz::HostToLittleEndian(Nz::UInt64(n)));
			case 14: return Text(Nz::BitCast<Nz::UInt64>(double(n)), Nz::BitCast<float>(Nz::UInt32(n)));
			case 15: { const auto& m = map; return Text(Nz::Retrieve(m, "alpha"), Nz::Retrieve(m, std::string("beta"))); }
			case 16: return Text(Nz::SafeCast<Nz::UInt16>(n), static_cast<Nz::Int64>(Nz::UnderlyingCast(Enum::C)));
			case 17: { Nz::Bitset<> b = Nz::Bitset<>::FromPointer(w.data(), w.size() * 8 - 3); return b.ToString(); }
			case 18: { Nz::Bitset<> b(w.size() % 2 ? "0110110101" : "111000"); return Text(b.ToString(), b.Count(), b.To<Nz::UInt32>()); }
			case 19: { int x = 0; { Nz::CallOnExit e([&] { x += int(n); }); Nz::CallOnExit f([&] { x *= 3; }); } return Text(x); }
			case 20: { std::string r; auto a = NazaraStackArray(std::string, (n % 5 + 1)); for (auto& s : a) s = w; for (auto& s : a) r += s; auto v = NazaraStackVector(std::string, 4); v.push_back(w); v.emplace(v.begin(), 3u, 'q'); return r + All(v); }
			case 21: { alignas(std::string) char room[sizeof(std::string)]; std::string* p = Nz::PlacementNew(reinterpret_cast<std::string*>(room), w); std::string r = *p; Nz::PlacementDestroy(p); return r; }
			case 22: { std::string r; Nz::TypeListApply<Nz::TypeList<int, A0, float>, Namer>(r); return r; }
			default: { int v[3] = {}; return Text(Nz::CountOf(v), Nz::CountOf(w), Nz::SetBit(n, 3u), Nz::ClearBit(n, 1u), Nz::ToggleBit(n, 9u), Nz::TestBit(n, 2u), Nz::ArithmeticRightShift(-int(n), 3)); }
		}
	}
	template<typename T> struct Namer { void operator()(std::string& r) const { r += Nz::TypeName<T>(); } };
};

constexpr int Threads = 4;
static std::atomic<long> ticket{ 0 };
struct Rec { long at; std::string ev; };
struct Todo { int obj; bool write; unsigned n; };

static void Run(const std::vector<Op>& script, const std::string&)
{
	std::vector<Thing*> things;
	auto drop = [&] { for (Thing* t : things) delete t; things.clear(); };
	std::vector<Todo> todo[Threads];
	std::vector<Rec> rec[Threads];
	std::atomic<int> arrived{ 0 };
	std::atomic<long> round{ 0 };
	std::atomic<bool> over{ false };

	auto call = [&](int t, const Todo& d)
	{
		SetDuring((d.write ? "write of object " : "read of object ") + std::to_string(d.obj) + " by thread " + std::to_string(t) + ", key " + std::to_string(d.n));
		Thing* o = things[std::size_t(d.obj)];
		unsigned key = d.write ? d.n : d.n % o->keys();
		long from = ticket.fetch_add(1, std::memory_order_relaxed);
		std::string r;
		if (d.write)
			o->write(d.n);
		else
			r = o->read(key);
		long to = ticket.fetch_add(1, std::memory_order_relaxed);
		rec[t].push_back({ from, Ev("Start").i("t", t).i("o", d.obj).b("w", d.write).i("k", d.write ? 0 : key).str() });
		rec[t].push_back({ to, Ev("Return").i("t", t).i("o", d.obj).b("w", d.write).i("k", d.write ? 0 : key).s("r", Plain(r)).str() });
	};
	auto barrier = [&](long& mine)
	{
		++mine;
		if (++arrived == Threads + 1) { arrived = 0; round = mine; }
		else while (round.load() < mine) std::this_thread::yield();
	};
	std::vector<std::thread> pool;
	int out = OutFd();
	for (int t = 0; t < Threads; ++t)
		pool.emplace_back([&, t]
		{
			OutFd() = out;
			Buffer().clear();
			long mine = 0;
			for (;;)
			{
				barrier(mine);
				if (over) return;
				for (const Todo& d : todo[t]) call(t, d);
				barrier(mine);
			}
		});
	long mine = 0;
	auto go = [&]
	{
		barrier(mine);
		barrier(mine);
		std::vector<Rec> all;
		for (int t = 0; t < Threads; ++t)
		{
			all.insert(all.end(), rec[t].begin(), rec[t].end());
			rec[t].clear();
			todo[t].clear();
		}
		std::sort(all.begin(), all.end(), [](const Rec& a, const Rec& b) { return a.at < b.at; });
		for (const Rec& r : all) { Buffer() += r.ev + "\n"; ++EventCount(); }
		Flush();
	};

	for (const Op& op : script)
	{
		SetDuring(Describe(op));
		if (op.name == "Begin")
		{
			drop();
			things = { new TBitset<Nz::Bitset<std::uint8_t>>, new TBitset<Nz::Bitset<std::uint64_t>>, new TBitset<Nz::Bitset<std::uint16_t, Nz::HybridVector<std::uint16_t, 2>>>,
				new TVec<Hybrid>, new TVec<Fixed>, new TVec<StackV>, new TArray, new TPool, new TResult, new TImpl, new TEnum, new TPtrs, new TSignal, new TFunc, new TLib };
			Ev("Begin").emit();
			continue;
		}
		Rng rng(unsigned(op.get("seed", 1)) + 1u);
		rng.discard(3);
		int count = int(things.size()) - 1;
		if (op.name == "Together")
		{
			// one call of each thread, on the objects base and base + 1: a whole state of the model
			for (int t = 0; t < Threads; ++t)
			{
				int c = int(op.get(("c" + std::to_string(t)).c_str(), -1));
				if (c < 0) continue;
				int o = (int(op.get("base", 0)) + c / 2) % count;
				for (unsigned k = 0; k < (c % 2 ? 2u : 6u); ++k)
					todo[t].push_back({ o, c % 2 == 1, unsigned(rng()) });
				todo[t].push_back({ count, false, unsigned(rng()) });
			}
		}
		else
		{
			// every object either one thread's own or read by all
			std::vector<int> owner;
			for (int o = 0; o < count; ++o)
				owner.push_back(rng() % 2 ? int(rng() % Threads) : -1);
			owner.push_back(-1);
			for (int t = 0; t < Threads; ++t)
				for (unsigned k = 0; k < unsigned(op.get("n", 30)); ++k)
				{
					int o = int(rng() % unsigned(count + 3));
					if (o > count) o = count;
					if (owner[std::size_t(o)] >= 0 && owner[std::size_t(o)] != t) continue;
					todo[t].push_back({ o, owner[std::size_t(o)] == t && rng() % 2 == 0, unsigned(rng()) });
				}
		}
		go();
	}
	over = true;
	barrier(mine);
	for (std::thread& t : pool) t.join();
	drop();
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
