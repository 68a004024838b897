// Conformance driver of everything that allocates memory: any allocation of a call may fail.
#include "nzv.hpp"
#include "trk.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Signal.hpp>
#include <memory>
#include <optional>
#include <utility>

// ---- the allocator: counts what a call of the library allocates, and refuses the chosen allocation
namespace mem
{
	static thread_local bool sut = false;      // inside a call of the library
	static thread_local long countdown = -1;
	static thread_local bool fired = false;
	static thread_local long live = 0;         // blocks allocated by the library and not given back
	static thread_local long made = 0;

	static void* Get(std::size_t n, std::size_t align)
	{
		std::size_t h = align > 16 ? align : 16;
		if (sut)
		{
			++made;
			if (countdown > 0 && --countdown == 0)
			{
				countdown = -1;
				fired = true;
				throw std::bad_alloc();
			}
		}
		if (n > (std::size_t(1) << 34))
			throw std::bad_alloc();
		char* p = static_cast<char*>(std::aligned_alloc(h, (n + h + h - 1) / h * h));
		if (!p)
			throw std::bad_alloc();
		p += h;
		p[-1] = sut ? 1 : 0;
		if (sut)
			++live;
		return p;
	}
	static void Put(void* q, std::size_t align)
	{
		if (!q)
			return;
		std::size_t h = align > 16 ? align : 16;
		char* p = static_cast<char*>(q);
		if (p[-1])
			--live;
		std::free(p - h);
	}
}
void* operator new(std::size_t n) { return mem::Get(n, 16); }
void* operator new[](std::size_t n) { return mem::Get(n, 16); }
void* operator new(std::size_t n, std::align_val_t a) { return mem::Get(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return mem::Get(n, std::size_t(a)); }
void operator delete(void* p) noexcept { mem::Put(p, 16); }
void operator delete[](void* p) noexcept { mem::Put(p, 16); }
void operator delete(void* p, std::size_t) noexcept { mem::Put(p, 16); }
void operator delete[](void* p, std::size_t) noexcept { mem::Put(p, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { mem::Put(p, std::size_t(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { mem::Put(p, std::size_t(a)); }
void operator delete(void* p, std::size_t, std::align_val_t a) noexcept { mem::Put(p, std::size_t(a)); }
void operator delete[](void* p, std::size_t, std::align_val_t a) noexcept { mem::Put(p, std::size_t(a)); }

using namespace nzv;
using TFull = Trk<true, true, true>;
struct alignas(64) Aligned64
{
	int v;
	Aligned64(int x = 0) : v(x) {}
	bool operator==(const Aligned64& o) const { return v == o.v; }
};
// copyable but not assignable
struct Fixed
{
	const int v;
	explicit Fixed(int x) : v(x) {}
	Fixed(const Fixed&) = default;
	Fixed& operator=(const Fixed&) = delete;
};
static int Num(const int& v) { return v; }
static int Num(const TFull& t) { return t.Get(); }
static int Num(const Aligned64& w) { return w.v; }
static int Num(const Fixed& f) { return f.v; }

template<typename T, std::size_t C, typename Bits, typename Impl> struct Drv
{
	static constexpr std::size_t N = 2;
	using Vec = Nz::HybridVector<T, C>;
	using Pool = Nz::MemoryPool<T>;
	using Sig = Nz::Signal<int>;
	using Pim = Nz::PrivateImpl<Impl>;

	std::optional<Vec> vec[N];
	std::optional<Bits> bit[N];
	std::optional<Pool> pool[N];
	std::vector<std::pair<std::size_t, T*>> known[N];
	std::optional<Sig> sig[N];
	std::map<int, typename Sig::Connection> conns;
	typename Sig::ConnectionGuard guard;
	std::vector<int> called;
	int nextId = 1;
	std::optional<Pim> pim[N];

	bool failed = false;
	long thr = 0;
	// one call of the library
	template<typename F> void Sut(F&& f)
	{
		failed = false;
		mem::fired = false;
		mem::countdown = thr > 0 ? thr : -1;
		mem::sut = true;
		try { f(); }
		catch (const std::bad_alloc&) { failed = true; }
		mem::sut = false;
		mem::countdown = -1;
	}
	// temporaries the driver needs inside a call must not fail: they are made before
	Ev& Base(Ev& e, std::size_t o, std::size_t p) { return e.i("o", ll(o) + 1).i("p", ll(p) + 1).b("f", failed).b("fired", mem::fired); }

	std::vector<int> Content(const Vec& v)
	{
		std::vector<int> r;
		for (const T& x : v) r.push_back(Num(x));
		return r;
	}
	void EmitV(Ev& e, std::size_t o, std::size_t p)
	{
		std::vector<std::vector<int>> s;
		std::vector<int> sizes, indexed;
		for (auto& v : vec) { s.push_back(Content(*v)); sizes.push_back(int(v->size())); }
		for (std::size_t i = 0; i < vec[o]->size(); ++i) indexed.push_back(Num((*vec[o])[i]));
		Base(e, o, p).arr2("s", s).arr("sizes", sizes).arr("at", indexed).emit();
	}
	void EmitB(Ev& e, std::size_t o, std::size_t p)
	{
		std::vector<std::vector<int>> s;
		std::vector<int> count, blocks;
		for (auto& b : bit)
		{
			std::vector<int> r;
			for (std::size_t i = 0; i < b->GetSize(); ++i) r.push_back(b->Test(i) ? 1 : 0);
			s.push_back(r);
			count.push_back(int(b->Count()));
			blocks.push_back(int(b->GetBlockCount()));
		}
		Base(e, o, p).arr2("s", s).arr("cnt", count).arr("blk", blocks).i("bpb", ll(Bits::bitsPerBlock)).emit();
	}
	void EmitP(Ev& e, std::size_t o, std::size_t p)
	{
		std::vector<std::vector<ll>> idx, val;
		std::vector<ll> nb, bs, fr, al, same;
		for (std::size_t k = 0; k < N; ++k)
		{
			Pool& q = *pool[k];
			std::vector<ll> a, b;
			for (auto it = q.begin(); it != q.end(); ++it) { a.push_back(ll(it.GetIndex())); b.push_back(Num(*it)); }
			ll ok = 1;
			for (auto& [i, ptr] : known[k]) if (q.RetrieveFromIndex(i) != ptr) ok = 0;
			idx.push_back(a); val.push_back(b); same.push_back(ok);
			nb.push_back(ll(q.GetBlockCount())); bs.push_back(ll(q.GetBlockSize())); fr.push_back(ll(q.GetFreeEntryCount())); al.push_back(ll(q.GetAllocatedEntryCount()));
		}
		Base(e, o, p).arr2("idx", idx).arr2("val", val).arr("nb", nb).arr("bs", bs).arr("fr", fr).arr("al", al).arr("same", same).emit();
	}
	void EmitS(Ev& e, std::size_t o, std::size_t p)
	{
		std::vector<std::vector<int>> got;
		for (auto& s : sig)
		{
			called.clear();
			(*s)(7);
			got.push_back(called);
		}
		std::vector<int> con;
		for (auto& [id, c] : conns) if (c.IsConnected()) con.push_back(id);
		Base(e, o, p).arr2("s", got).arr("con", con).b("g", guard.IsConnected()).emit();
	}
	void EmitI(Ev& e, std::size_t o, std::size_t p)
	{
		std::vector<std::vector<int>> s;
		for (auto& q : pim) { if (q->HasValue()) s.push_back({ Num(**q) }); else s.push_back({}); }
		Base(e, o, p).arr2("s", s).emit();
	}

	void Step(const Op& op)
	{
		SetDuring(Describe(op));
		const std::string& n = op.name;
		std::size_t o = Mod(op.get("o"), N), p = Mod(op.get("p"), N);
		int v = int(Mod(op.get("v"), 200));
		ll how = Mod(op.get("how"), 60);
		thr = long(op.get("thr"));
		failed = false;
		if (n == "Begin")
		{
			Gone(false);
			for (std::size_t k = 0; k < N; ++k)
			{
				vec[k].emplace(); bit[k].emplace(); pim[k].emplace(nullptr); sig[k].emplace();
				thr = 0;
				Sut([&] { pool[k].emplace(2); });
			}
			nextId = 1;
			Ev("Begin").emit();
			return;
		}
		if (op.get("trim"))
		{
			// gives up the room it does not need, so that the call has to allocate
			long t = thr;
			thr = 0;
			if (n[0] == 'V') Sut([&] { Vec c(static_cast<const Vec&>(*vec[o])); *vec[o] = std::move(c); });
			if (n[0] == 'B') Sut([&] { Bits c(static_cast<const Bits&>(*bit[o])); *bit[o] = std::move(c); });
			thr = t;
		}
		if (n[0] == 'V') return StepV(n, op, o, p, v, how);
		if (n[0] == 'B') return StepB(n, op, o, p, v, how);
		if (n[0] == 'P') return StepP(n, op, o, p, v, how);
		if (n[0] == 'S') return StepS(n, op, o, p, v, how);
		if (n[0] == 'I') return StepI(n, op, o, p, v, how);
	}

	void StepV(const std::string& n, const Op& op, std::size_t o, std::size_t p, int v, ll how)
	{
		Vec& x = *vec[o];
		Ev e(n);
		std::size_t len = x.size(), i = Mod(op.get("i"), len + 1), c = Mod(op.get("n"), 14);
		if (n == "VPush")
		{
			if (len > 40) return;
			T value(v);
			Sut([&] {
				if (how % 3 == 0) x.push_back(value);
				else if (how % 3 == 1) x.push_back(std::move(value));
				else x.emplace_back(v);
			});
		}
		else if (n == "VPushOwn")
		{
			if (len == 0 || len > 40) return;
			i = Mod(op.get("i"), len);
			Sut([&] { if (how % 2) x.push_back(x[i]); else x.emplace_back(static_cast<const Vec&>(x)[i]); });
			e.sz("i", i);
		}
		else if (n == "VInsert")
		{
			if (len > 40) return;
			T value(v);
			Sut([&] {
				if (how % 3 == 0) x.insert(x.begin() + std::ptrdiff_t(i), value);
				else if (how % 3 == 1) x.insert(x.begin() + std::ptrdiff_t(i), std::move(value));
				else x.emplace(x.begin() + std::ptrdiff_t(i), v);
			});
			e.sz("i", i);
		}
		else if (n == "VResize")
		{
			T value(v);
			if (how % 2) { Sut([&] { x.resize(c); }); v = 0; }
			else Sut([&] { x.resize(c, value); });
			e.sz("n", c);
		}
		else if (n == "VReserve")
		{
			Sut([&] { x.reserve(c * 2); });
		}
		else if (n == "VErase")
		{
			if (len == 0) return;
			i = Mod(op.get("i"), len);
			Sut([&] { x.erase(x.begin() + std::ptrdiff_t(i)); });
			e.sz("i", i);
		}
		else if (n == "VClear")
			Sut([&] { x.clear(); });
		else if (n == "VCopy")
		{
			if (how % 2) Sut([&] { Vec t(static_cast<const Vec&>(*vec[p])); x = std::move(t); });
			else Sut([&] { x = static_cast<const Vec&>(*vec[p]); });
		}
		else if (n == "VMove")
		{
			if (o == p) return;
			Sut([&] { x = std::move(*vec[p]); });
			vec[p]->clear();     // what a moved-from vector holds is not specified
		}
		else if (n == "VNew")
		{
			std::vector<T> src;
			std::vector<int> vals;
			for (std::size_t k = 0; k < c; ++k) { src.emplace_back(v + int(k)); vals.push_back(v + int(k)); }
			Sut([&] { Vec t(src.begin(), src.end()); x = std::move(t); });
			e.arr("vals", vals);
		}
		else
			return;
		e.i("v", v);
		EmitV(e, o, p);
	}

	void StepB(const std::string& n, const Op& op, std::size_t o, std::size_t p, int v, ll how)
	{
		Bits& x = *bit[o];
		Ev e(n);
		std::size_t c = Mod(op.get("n"), 150);
		if (n == "BResize")
		{
			Sut([&] { x.Resize(c, how % 2 != 0); });
			e.sz("n", c).b("v", how % 2 != 0);
		}
		else if (n == "BSet")
		{
			Sut([&] { x.UnboundedSet(c, how % 4 != 0); });
			e.sz("n", c).b("v", how % 4 != 0);
		}
		else if (n == "BAppend")
		{
			if (x.GetSize() > 200) return;
			std::size_t w = Mod(op.get("n"), 65);
			unsigned long long bits = static_cast<unsigned long long>(op.get("v")) * 0x9E3779B97F4A7C15ull;
			switch (how % 4)
			{
				case 0: w = std::min<std::size_t>(w, 8); Sut([&] { x.AppendBits(Nz::UInt8(bits), w); }); break;
				case 1: w = std::min<std::size_t>(w, 16); Sut([&] { x.AppendBits(Nz::UInt16(bits), w); }); break;
				case 2: w = std::min<std::size_t>(w, 32); Sut([&] { x.AppendBits(Nz::UInt32(bits), w); }); break;
				default: Sut([&] { x.AppendBits(Nz::UInt64(bits), w); }); break;
			}
			e.bits("add", bits, unsigned(w));
		}
		else if (n == "BWrite")
		{
			if (x.GetSize() > 200) return;
			unsigned char bytes[10];
			for (unsigned k = 0; k < 10; ++k) bytes[k] = static_cast<unsigned char>((v + 3) * 37 * (k + 1));
			std::size_t off = Mod(op.get("i"), 8), w = Mod(op.get("n"), 70);
			std::vector<int> add;
			for (std::size_t k = 0; k < w; ++k) add.push_back((bytes[(off + k) / 8] >> ((off + k) % 8)) & 1);
			Sut([&] { x.Write(typename Bits::PointerSequence(bytes, off), w); });
			e.arr("add", add);
		}
		else if (n == "BOp" || n == "BMake")
		{
			const Bits& y = *bit[p];
			if (n == "BOp")
				Sut([&] { if (how % 3 == 0) x &= y; else if (how % 3 == 1) x |= y; else x ^= y; });
			else
				Sut([&] { if (how % 3 == 0) x = x & y; else if (how % 3 == 1) x = y | x; else x = x ^ y; });
			e.i("k", how % 3);
		}
		else if (n == "BPerform")
		{
			// x := the result of two others
			const Bits& y = *bit[p];
			Bits z(y);
			z <<= 1;
			std::vector<int> other;
			for (std::size_t k = 0; k < z.GetSize(); ++k) other.push_back(z.Test(k) ? 1 : 0);
			Sut([&] { if (how % 3 == 0) x.PerformsAND(y, z); else if (how % 3 == 1) x.PerformsOR(z, y); else x.PerformsXOR(y, z); });
			e.i("k", how % 3).arr("z", other);
		}
		else if (n == "BNot")
			Sut([&] { if (how % 2) x = ~x; else x.PerformsNOT(*bit[p]); });
		else if (n == "BStr")
		{
			std::vector<int> bits;
			std::string s;
			std::size_t w = c;
			for (std::size_t k = 0; k < w; ++k) bits.push_back(int((unsigned(v) * 2654435761u) >> (k % 31)) & 1);
			for (std::size_t k = w; k-- > 0;) s += char('0' + bits[k]);
			Sut([&] { x = std::string_view(s); });
			e.arr("bits", bits);
		}
		else if (n == "BCopy")
		{
			if (how % 2) Sut([&] { Bits t(static_cast<const Bits&>(*bit[p])); x = std::move(t); });
			else Sut([&] { x = static_cast<const Bits&>(*bit[p]); });
		}
		else if (n == "BShift")
		{
			Sut([&] { if (how % 2) x <<= c; else x = x << c; });
			e.sz("n", c);
		}
		else if (n == "BSwap")
			Sut([&] { x.Swap(*bit[p]); });
		else if (n == "BClear")
			Sut([&] { x.Clear(); });
		else
			return;
		if (n == "BNot") { if (how % 2) p = o; }
		EmitB(e, o, p);
	}

	void StepP(const std::string& n, const Op& op, std::size_t o, std::size_t p, int v, ll how)
	{
		Pool& q = *pool[o];
		Ev e(n);
		if (n == "PAlloc")
		{
			if (known[o].size() > 12) return;
			std::size_t index = 99999;
			T* ptr = nullptr;
			if (how % 2)
			{
				Sut([&] { ptr = q.Allocate(Pool::DeferConstruct, index); });
				if (!failed) new (static_cast<void*>(ptr)) T(v);
			}
			else
				Sut([&] { ptr = q.Allocate(index, v); });
			if (!failed) known[o].push_back({ index, ptr });
			e.i("v", v).sz("i", failed ? 0 : index);
		}
		else if (n == "PFree")
		{
			if (known[o].empty()) return;
			std::size_t k = Mod(op.get("i"), known[o].size()), index = known[o][k].first;
			known[o].erase(known[o].begin() + std::ptrdiff_t(k));
			Sut([&] { q.Free(index); });
			e.sz("i", index);
		}
		else if (n == "PReset" || n == "PClear")
		{
			Sut([&] { if (n == "PReset") q.Reset(); else q.Clear(); });
			known[o].clear();
		}
		else if (n == "PNew")
		{
			std::size_t b = 1 + Mod(op.get("n"), 4);
			Sut([&] { Pool t(b); q = std::move(t); });
			if (!failed) known[o].clear();
			e.sz("n", b);
		}
		else if (n == "PMove")
		{
			if (o == p) return;
			Sut([&] { q = std::move(*pool[p]); });
			known[o] = std::move(known[p]);
			known[p].clear();
		}
		else
			return;
		EmitP(e, o, p);
	}

	void StepS(const std::string& n, const Op& op, std::size_t o, std::size_t p, int, ll how)
	{
		Sig& s = *sig[o];
		Ev e(n);
		if (n == "SConnect" || n == "SGuard")
		{
			if (conns.size() > 40) return;
			int id = nextId++;
			std::vector<int>* out = &called;
			// small callables, and callables too large for std::function to hold in place
			auto small = [out, id](int) { out->push_back(id); };
			auto large = [out, id, pad = std::array<long, 9>{}](int) { out->push_back(id + int(pad[8])); };
			typename Sig::Connection c;
			if (n == "SConnect")
			{
				Sut([&] { if (how % 2) c = s.Connect(small); else c = s.Connect(large); });
				if (!failed) conns[id] = c;
			}
			else
				Sut([&] { if (how % 2) guard.Connect(s, small); else guard.Connect(s, large); });
			e.i("id", id);
		}
		else if (n == "SDrop")
		{
			if (conns.empty()) return;
			auto it = conns.begin();
			std::advance(it, long(Mod(op.get("i"), conns.size())));
			Sut([&] { it->second.Disconnect(); });
			e.i("id", it->first);
		}
		else if (n == "SClear")
			Sut([&] { s.Clear(); });
		else if (n == "SMove")
		{
			if (o == p) return;
			Sut([&] { s = std::move(*sig[p]); });
		}
		else
			return;
		EmitS(e, o, p);
	}

	void StepI(const std::string& n, const Op&, std::size_t o, std::size_t p, int v, ll how)
	{
		Pim& q = *pim[o];
		Ev e(n);
		if (n == "IMake")
		{
			if (how % 2 && !q.HasValue())
				Sut([&] { q.Emplace(v); });
			else
				Sut([&] { Pim t(v); q = std::move(t); });
			e.i("v", v);
		}
		else if (n == "IReset")
			Sut([&] { q.Reset(); });
		else if (n == "ICopy")
		{
			if (how % 2) Sut([&] { Pim t(static_cast<const Pim&>(*pim[p])); q = std::move(t); });
			else Sut([&] { q = static_cast<const Pim&>(*pim[p]); });
		}
		else if (n == "IMove")
		{
			if (o == p) return;
			Sut([&] { q = std::move(*pim[p]); });
		}
		else
			return;
		EmitI(e, o, p);
	}

	void Gone(bool emit)
	{
		mem::countdown = -1;
		for (std::size_t k = 0; k < N; ++k)
		{
			vec[k].reset(); bit[k].reset(); known[k].clear(); pool[k].reset(); sig[k].reset(); pim[k].reset();
		}
		conns.clear();
		guard = typename Sig::ConnectionGuard();
		if (emit)
			Ev("Gone").i("blocks", mem::live).emit();
	}
	void Run(const std::vector<Op>& s)
	{
		Reg();     // allocates once, outside of the calls
		bool first = true;
		for (auto& x : s)
		{
			if (x.name == "Begin" && !first)
				Gone(true);
			first = false;
			Step(x);
		}
		Gone(true);
	}
};

static void Run(const std::vector<Op>& s, const std::string& cfg)
{
	if (cfg == "a") return Drv<int, 3, Nz::Bitset<Nz::UInt8>, TFull>().Run(s);
	if (cfg == "b") return Drv<TFull, 2, Nz::Bitset<Nz::UInt64>, Fixed>().Run(s);
	if (cfg == "c") return Drv<Aligned64, 1, Nz::HybridBitset<Nz::UInt16, 24>, Aligned64>().Run(s);
	if (cfg == "d") return Drv<TFull, 4, Nz::HybridBitset<Nz::UInt8, 16>, int>().Run(s);
	std::exit(2);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
