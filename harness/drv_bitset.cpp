// Conformance driver of Nz::Bitset (all block types and storages).
#include "nzv.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <sstream>
#include <type_traits>

using namespace nzv;

template<typename BS, typename Block>
struct Drv
{
	static constexpr std::size_t N = 3;
	std::size_t cap;
	BS obj[N];

	explicit Drv(std::size_t c) : cap(c) {}

	std::size_t O(const Op& op, const char* k) const { return Mod(op.get(k), N); }

	static std::vector<int> Bits(const BS& b)
	{
		std::vector<int> r;
		std::size_t n = b.GetSize();
		if (n > 600000) n = 600000;
		for (std::size_t i = 0; i < n; ++i)
			r.push_back(b.Test(i) ? 1 : 0);
		return r;
	}

	// raw image of every block, as bits
	static std::vector<int> BlockBits(const BS& b)
	{
		std::vector<int> r;
		for (std::size_t i = 0; i < b.GetBlockCount() && i < 600000; ++i)
			for (std::size_t j = 0; j < BS::bitsPerBlock; ++j)
				r.push_back(int((b.GetBlock(i) >> j) & 1u));
		return r;
	}

	// number of bits set beyond the size, -1 when the number of blocks does not match the size
	static int Extra(const BS& b)
	{
		std::size_t W = BS::bitsPerBlock;
		if (b.GetBlockCount() != (b.GetSize() + W - 1) / W)
			return -1;
		auto r = BlockBits(b);
		int x = 0;
		for (std::size_t i = b.GetSize(); i < r.size(); ++i)
			x += r[i];
		return x;
	}

	void St(Ev& e, std::size_t o)
	{
		e.i("o", ll(o) + 1);
		std::vector<int> b = Bits(obj[o]);
		e.arr("st", b).i("x", Extra(obj[o]));
	}

	void St2(Ev& e, std::size_t p)
	{
		e.i("p", ll(p) + 1);
		e.arr("st2", Bits(obj[p])).i("x2", Extra(obj[p]));
	}

	static std::string Str(const std::vector<ll>& bits) // bits[0] is the least significant
	{
		std::string s;
		for (auto it = bits.rbegin(); it != bits.rend(); ++it)
			s += (*it & 1) ? '1' : '0';
		return s;
	}

	// clamp a bit pattern to the capacity
	std::vector<ll> Pat(const Op& op) const
	{
		auto l = op.list("b");
		if (l.size() > cap) l.resize(cap);
		for (auto& v : l) v &= 1;
		return l;
	}

	template<typename T> void FromInt(std::size_t o, std::uint64_t w, bool assign)
	{
		T v = T(w);
		if constexpr (std::is_same_v<T, bool>)
			w = v ? 1 : 0;
		if (assign)
			obj[o] = v;
		else
			obj[o] = BS(v);
		Ev e("FromInt");
		e.bits("src", std::uint64_t(v), sizeof(T) * 8).i("asg", assign);
		St(e, o);
		e.emit();
	}

	template<typename T> void Append(std::size_t o, std::uint64_t w, std::size_t n)
	{
		T v = T(w);
		obj[o].AppendBits(v, n);
		Ev e("Append");
		e.bits("src", std::uint64_t(v), sizeof(T) * 8).sz("n", n);
		St(e, o);
		e.emit();
	}

	template<typename T> void To(std::size_t o)
	{
		if (obj[o].GetSize() > sizeof(T) * 8)
			return;
		const BS& c = obj[o];
		T v = c.template To<T>();
		Ev e("ToInt");
		e.bits("r", std::uint64_t(v), sizeof(T) * 8);
		St(e, o);
		e.emit();
	}

	template<typename F> void ByType(ll t, F f)
	{
		switch (Mod(t, 4))
		{
			case 0: f(Nz::UInt8(0)); break;
			case 1: f(Nz::UInt16(0)); break;
			case 2: f(Nz::UInt32(0)); break;
			default: f(Nz::UInt64(0)); break;
		}
	}

	void Observe(std::size_t o)
	{
		const BS& c = obj[o];
		Ev e("Observe");
		St(e, o);
		e.sz("size", c.GetSize()).sz("count", c.Count()).sz("first", c.FindFirst());
		e.b("capok", c.GetCapacity() >= c.GetSize());
		e.sz("bc", c.GetBlockCount()).i("bpb", BS::bitsPerBlock);
		e.b("all", c.TestAll()).b("any", c.TestAny()).b("none", c.TestNone());
		std::vector<std::size_t> byNext, byIter, byPost;
		std::size_t guard = c.GetSize() + 3;
		for (std::size_t i = c.FindFirst(); i != BS::npos && byNext.size() < guard; i = (i < c.GetSize()) ? c.FindNext(i) : BS::npos)
			byNext.push_back(i);
		for (std::size_t i : c.IterBits())
		{
			byIter.push_back(i);
			if (byIter.size() >= guard) break;
		}
		{
			auto tag = c.IterBits();
			auto it = tag.begin();
			auto end = tag.end();
			while (it != end && byPost.size() < guard)
			{
				auto old = it++;
				byPost.push_back(*old);
			}
		}
		e.arr("next", byNext).arr("iter", byIter).arr("post", byPost);
		std::vector<int> idx;
		for (std::size_t i = 0; i < c.GetSize() && i < 600000; ++i)
			idx.push_back(c[i] ? 1 : 0);
		e.arr("idx", idx);
		std::vector<int> unb;
		for (std::size_t i = 0; i < c.GetSize() + 9; ++i)
			unb.push_back(c.UnboundedTest(i) ? 1 : 0);
		e.arr("unb", unb);
		e.arr("blocks", BlockBits(c));
		std::vector<int> fn; // FindNext from every position (of a very long bitset: from some)
		std::vector<std::size_t> fa;
		for (std::size_t i = 0; i < c.GetSize(); ++i)
		{
			if (c.GetSize() > 2500 && i % 997 != 0 && ((i + 1) % 256 > 1 || i % 65536 > 3000) && i + 3 < c.GetSize())
				continue;
			std::size_t r = c.FindNext(i);
			fa.push_back(i);
			fn.push_back(r == BS::npos ? -1 : int(r > 1000000 ? 1000000 : r));
		}
		e.arr("fa", fa);
		e.arr("fn", fn);
		std::string s = c.ToString();
		std::ostringstream oss;
		oss << c;
		std::vector<int> sb, ob;
		for (char ch : s) sb.push_back(ch == '1' ? 1 : ch == '0' ? 0 : 2);
		for (char ch : oss.str()) ob.push_back(ch == '1' ? 1 : ch == '0' ? 0 : 2);
		e.arr("str", sb).arr("os", ob);
		e.emit();
	}

	void Exec(const Op& op)
	{
		const std::string& n = op.name;
		std::size_t o = O(op, "o"), p = O(op, "p"), q = O(op, "q");
		BS& b = obj[o];
		std::size_t size = b.GetSize();
		ll v = op.get("v") & 1;

		if (n == "Begin")
		{
			for (auto& x : obj) x = BS();
			Ev("Begin").emit();
		}
		else if (n == "Fill") // sized constructor
		{
			std::size_t k = Mod(op.get("n"), cap + 1);
			obj[o] = BS(k, v != 0);
			Ev e("Fill"); e.sz("n", k).i("v", v); St(e, o); e.emit();
		}
		else if (n == "Str")
		{
			auto l = Pat(op);
			std::string s = Str(l);
			switch (Mod(op.get("how"), 5))
			{
				case 0: obj[o] = BS(s.c_str()); break;
				case 1: obj[o] = BS((s + "1").c_str(), s.size()); break;
				case 2: obj[o] = BS(std::string_view(s)); break;
				case 3: obj[o] = BS(s); break;
				default: obj[o] = std::string_view(s); break;
			}
			Ev e("Str"); e.arr("b", l); St(e, o); e.emit();
		}
		else if (n == "Resize")
		{
			std::size_t k = Mod(op.get("n"), cap + 1);
			if (v == 0 && (op.get("how") & 1)) b.Resize(k); else b.Resize(k, v != 0);
			Ev e("Resize"); e.sz("n", k).i("v", v); St(e, o); e.emit();
		}
		else if (n == "Clear") { b.Clear(); Ev e(n); St(e, o); e.emit(); }
		else if (n == "Reserve") { b.Reserve(Mod(op.get("n"), cap + 1)); Ev e(n); St(e, o); e.emit(); }
		else if (n == "Flip") { b.Flip(); Ev e(n); St(e, o); e.emit(); }
		else if (n == "Reverse") { b.Reverse(); Ev e(n); St(e, o); e.emit(); }
		else if (n == "SetAll")
		{
			if (v) { if (op.get("how") & 1) b.Set(); else b.Set(true); }
			else { if (op.get("how") & 1) b.Reset(); else b.Set(false); }
			Ev e(n); e.i("v", v); St(e, o); e.emit();
		}
		else if (n == "Set1")
		{
			if (size == 0) return;
			std::size_t i = Mod(op.get("i"), size);
			if (v) { if (op.get("how") & 1) b.Set(i); else b.Set(i, true); }
			else { if (op.get("how") & 1) b.Reset(i); else b.Set(i, false); }
			Ev e(n); e.sz("i", i).i("v", v); St(e, o); e.emit();
		}
		else if (n == "USet")
		{
			std::size_t i = Mod(op.get("i"), cap);
			if (v) { if (op.get("how") & 1) b.UnboundedSet(i); else b.UnboundedSet(i, true); }
			else { if (op.get("how") & 1) b.UnboundedReset(i); else b.UnboundedSet(i, false); }
			Ev e(n); e.sz("i", i).i("v", v); St(e, o); e.emit();
		}
		else if (n == "SetBlock")
		{
			if (b.GetBlockCount() == 0) return;
			std::size_t k = Mod(op.get("i"), b.GetBlockCount());
			Block w = Block(Wide(op, "w"));
			b.SetBlock(k, w);
			Ev e(n); e.sz("i", k).i("bpb", BS::bitsPerBlock).bits("w", w); St(e, o); e.emit();
		}
		else if (n == "Shl" || n == "Shr")
		{
			std::size_t k = Mod(op.get("n"), cap + 20);
			bool left = (n == "Shl");
			switch (Mod(op.get("how"), 3))
			{
				case 0: if (left) b.ShiftLeft(k); else b.ShiftRight(k); break;
				case 1: if (left) b <<= k; else b >>= k; break;
				default: if (left) obj[o] = b << k; else obj[o] = b >> k; break;
			}
			Ev e(n); e.sz("n", k); St(e, o); e.emit();
		}
		else if (n == "ShlOf" || n == "ShrOf" || n == "NotOf") // const operators: source unchanged
		{
			std::size_t k = Mod(op.get("n"), cap + 20);
			const BS& src = obj[p];
			if (o == p) return;
			if (n == "ShlOf") obj[o] = src << k;
			else if (n == "ShrOf") obj[o] = src >> k;
			else obj[o] = ~src;
			Ev e(n); e.sz("n", k); St(e, o); St2(e, p); e.emit();
		}
		else if (n == "And" || n == "Or" || n == "Xor") // obj[o] := obj[p] op obj[q], aliasing allowed
		{
			switch (Mod(op.get("how"), 3))
			{
				case 0:
					if (n == "And") b.PerformsAND(obj[p], obj[q]);
					else if (n == "Or") b.PerformsOR(obj[p], obj[q]);
					else b.PerformsXOR(obj[p], obj[q]);
					break;
				case 1:
					if (n == "And") obj[o] = obj[p] & obj[q];
					else if (n == "Or") obj[o] = obj[p] | obj[q];
					else obj[o] = obj[p] ^ obj[q];
					break;
				default:
					p = o;
					if (n == "And") b &= obj[q];
					else if (n == "Or") b |= obj[q];
					else b ^= obj[q];
					break;
			}
			Ev e(n);
			St(e, o);
			St2(e, p);
			e.i("q", ll(q) + 1).arr("st3", Bits(obj[q])).i("x3", Extra(obj[q]));
			e.emit();
		}
		else if (n == "Not")
		{
			b.PerformsNOT(obj[p]);
			Ev e(n); St(e, o); St2(e, p); e.emit();
		}
		else if (n == "Copy")
		{
			if (op.get("how") & 1) { BS c(obj[p]); obj[o] = c; }
			else obj[o] = obj[p];
			Ev e(n); St(e, o); St2(e, p); e.emit();
		}
		else if (n == "Move")
		{
			if (o == p) return;
			if (op.get("how") & 1) { BS c(std::move(obj[p])); obj[o] = std::move(c); }
			else obj[o] = std::move(obj[p]);
			obj[p] = BS(); // the state of a moved-from bitset is not specified: reassign it
			Ev e(n); St(e, o); St2(e, p); e.emit();
		}
		else if (n == "Swap")
		{
			if (op.get("how") & 1) std::swap(obj[o], obj[p]); else obj[o].Swap(obj[p]);
			Ev e(n); St(e, o); St2(e, p); e.emit();
		}
		else if (n == "Bit") // bit references
		{
			if (size == 0) return;
			std::size_t i = Mod(op.get("i"), size), j = Mod(op.get("j"), size);
			std::size_t k = Mod(op.get("how"), 9);
			bool r = false;
			switch (k)
			{
				case 0: r = bool(b[i] = (v != 0)); break;
				case 1: r = b[i].Flip().Test(); break;
				case 2: r = b[i].Reset().Test(); break;
				case 3: r = b[i].Set(v != 0).Test(); break;
				case 4: r = bool(b[i] |= (v != 0)); break;
				case 5: r = bool(b[i] &= (v != 0)); break;
				case 6: r = bool(b[i] ^= (v != 0)); break;
				case 7: r = bool(b[i] -= (v != 0)); break;
				default: r = bool(b[i] = b[j]); break;
			}
			Ev e(n); e.sz("i", i).sz("j", j).sz("k", k).i("v", v).b("r", r); St(e, o); e.emit();
		}
		else if (n == "Observe") Observe(o);
		else if (n == "Intersects")
		{
			const BS& c = obj[o];
			bool r = c.Intersects(obj[p]);
			Ev e(n); e.b("r", r); St(e, o); St2(e, p); e.emit();
		}
		else if (n == "Compare")
		{
			const BS& x = obj[o];
			const BS& y = obj[p];
			Ev e(n);
			e.b("eq", x == y).b("ne", x != y).b("lt", x < y).b("le", x <= y).b("gt", x > y).b("ge", x >= y);
			St(e, o); St2(e, p); e.emit();
		}
		else if (n == "FromInt")
		{
			std::uint64_t w = Wide(op, "w");
			bool asg = op.get("how") & 1;
			ByType(op.get("t"), [&](auto t) { using T = decltype(t); if (sizeof(T) * 8 <= cap) FromInt<T>(o, w, asg); });
		}
		else if (n == "Append")
		{
			std::uint64_t w = Wide(op, "w");
			std::size_t k = Mod(op.get("n"), cap + 1);
			if (size + k > cap) k = cap - size;
			ByType(op.get("t"), [&](auto t) { Append<decltype(t)>(o, w, k); });
		}
		else if (n == "ToInt")
			ByType(op.get("t"), [&](auto t) { To<decltype(t)>(o); });
		else if (n == "ToStr")
		{
			const BS& c = b;
			std::string s = c.ToString();
			std::vector<int> sb;
			for (char ch : s) sb.push_back(ch == '1' ? 1 : ch == '0' ? 0 : 2);
			Ev e(n); e.arr("str", sb); St(e, o); e.emit();
		}
		else if (n == "Write" || n == "FromPtr")
		{
			auto bytes = op.list("bytes");
			bool fresh = (n == "FromPtr");
			std::size_t off = fresh ? 0 : Mod(op.get("off"), 8);
			std::size_t k = Mod(op.get("n"), cap + 1);
			if (!fresh && size + k > cap) k = cap - size;
			std::size_t need = (off + k + 7) / 8;
			std::vector<Nz::UInt8> buf;
			for (std::size_t i = 0; i < need || i < 1; ++i)
				buf.push_back(Nz::UInt8(bytes.empty() ? 0x5A + 31 * i : bytes[i % bytes.size()] + ll(i / bytes.size()) * 37));
			// exact heap allocation: reading past ceil((off+n)/8) bytes is caught by the sanitizer
			std::unique_ptr<Nz::UInt8[]> mem(new Nz::UInt8[buf.size()]);
			std::memcpy(mem.get(), buf.data(), buf.size());
			typename BS::PointerSequence seq{ nullptr, 77 };
			std::size_t how = Mod(op.get("how"), 2);
			bool hasRet = true;
			if (fresh)
			{
				if (how) { obj[o] = BS::FromPointer(mem.get(), k); hasRet = false; }
				else obj[o] = BS::FromPointer(mem.get(), k, &seq);
			}
			else if (off == 0 && how)
				seq = b.Write(mem.get(), k);
			else
				seq = b.Write(typename BS::PointerSequence(mem.get(), off), k);
			std::vector<int> src;
			for (auto by : buf)
				for (int j = 0; j < 8; ++j)
					src.push_back((by >> j) & 1);
			Ev e(n);
			e.arr("src", src).sz("off", off).sz("n", k).b("hr", hasRet);
			e.i("rb", hasRet ? ll(static_cast<const Nz::UInt8*>(seq.first) - mem.get()) : -1).i("ri", hasRet ? ll(seq.second) : -1);
			St(e, o); e.emit();
		}
	}

	void Run(const std::vector<Op>& script)
	{
		for (const Op& op : script)
		{
			SetDuring(Describe(op));
			Exec(op);
		}
	}
};

template<typename BS, typename B> void Go(const std::vector<Op>& s, std::size_t cap) { static_assert(BS::bitsPerBlock > 0); auto d = std::make_unique<Drv<BS, B>>(cap); d->Run(s); }

int main(int argc, char** argv)
{
	using namespace Nz;
	return Main(argc, argv, [](const std::vector<Op>& s, const std::string& cfg)
	{
#if GROUP == 0
		if (cfg == "u8v") Go<Bitset<UInt8>, UInt8>(s, 150);
		else if (cfg == "u8X") Go<Bitset<UInt8>, UInt8>(s, 525000);
		else if (cfg == "u8L") Go<Bitset<UInt8>, UInt8>(s, 2100);
		else if (cfg == "u16v") Go<Bitset<UInt16>, UInt16>(s, 150);
		else std::exit(2);
#endif
#if GROUP == 1
		if (cfg == "u32v") Go<Bitset<UInt32>, UInt32>(s, 150);
		else if (cfg == "u64L") Go<Bitset<UInt64>, UInt64>(s, 66000);
		else if (cfg == "u64v") Go<Bitset<UInt64>, UInt64>(s, 200);
		else std::exit(2);
#endif
#if GROUP == 2
		if (cfg == "u8f") Go<FixedBitset<UInt8, 128>, UInt8>(s, 128);
		else if (cfg == "u8F") Go<FixedBitset<UInt8, 2100>, UInt8>(s, 2100);
		else if (cfg == "u16f") Go<FixedBitset<UInt16, 100>, UInt16>(s, 100);
		else std::exit(2);
#endif
#if GROUP == 3
		if (cfg == "u32f") Go<FixedBitset<UInt32, 72>, UInt32>(s, 72);
		else if (cfg == "u64f") Go<FixedBitset<UInt64, 128>, UInt64>(s, 128);
		else std::exit(2);
#endif
#if GROUP == 4
		if (cfg == "u8h") Go<HybridBitset<UInt8, 32>, UInt8>(s, 130);
		else if (cfg == "u16h") Go<HybridBitset<UInt16, 16>, UInt16>(s, 130);
		else std::exit(2);
#endif
#if GROUP == 5
		if (cfg == "u32h") Go<HybridBitset<UInt32, 16>, UInt32>(s, 150);
		else if (cfg == "u64h") Go<HybridBitset<UInt64, 8>, UInt64>(s, 180);
		else std::exit(2);
#endif
	});
}
