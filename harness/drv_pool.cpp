// Conformance driver of MemoryPool.
#include "trk.hpp"
#include <NazaraUtils/MemoryPool.hpp>
#include <algorithm>
#include <functional>
#include <memory>
#include <optional>

using namespace nzv;
using TBase = Trk<true, true, false>;

constexpr int RawValue = -5;

// element whose constructor and destructor can call back into the pool
struct Elem : TBase
{
	Elem() = default;
	explicit Elem(int v) : TBase(v) {}
	template<typename F> Elem(F& f, int v) : TBase((f(), v)) {}
	~Elem()
	{
		if (Hook)
		{
			auto h = std::move(*Hook);
			Hook = nullptr;
			h();
		}
	}
	static inline thread_local std::function<void()>* Hook = nullptr;
	static constexpr bool Nests = true;
};
template<typename T> constexpr bool Nests = false;
template<> constexpr bool Nests<Elem> = true;

struct alignas(32) Big : TBase
{
	using TBase::TBase;
	char filler[40];
};

inline int ValueOf(const Elem& e) { return e.Get(); }
inline int ValueOf(const Big& e) { return e.Get(); }
template<typename T> void SetValue(T& t, int v)
{
	if constexpr (std::is_same_v<T, int>) t = v;
	else t.value = v;
}

template<typename T, std::size_t Al> struct Drv
{
	using Pool = Nz::MemoryPool<T, Al>;
	static constexpr std::size_t N = 3;
	struct Known { std::size_t index; T* ptr; bool raw; };
	std::optional<Pool> pool[N];
	std::vector<Known> known[N];
	bool life = false;
	std::size_t maxLive = 90;
	static constexpr bool Tracked = !std::is_same_v<T, int>;

	ll PtrId(const void* p) { return Reg().Id(p); }
	bool IsRaw(std::size_t o, const void* p)
	{
		for (auto& k : known[o])
			if (k.ptr == p)
				return k.raw;
		return false;
	}

	std::string State(std::size_t o)
	{
		Ev e("s");
		e.i("o", ll(o) + 1);
		std::vector<ll> idx, cidx, pidx, va, ad, itad, cad, back;
		bool al = true, eq = true;
		if (pool[o])
		{
			Pool& p = *pool[o];
			const Pool& c = p;
			for (auto it = p.begin(); it != p.end() && idx.size() < 1000; ++it)
			{
				std::size_t i = it.GetIndex();
				idx.push_back(ll(i));
				T* ptr = p.RetrieveFromIndex(i);
				ad.push_back(PtrId(ptr));
				itad.push_back(PtrId(&*it));
				cad.push_back(PtrId(c.RetrieveFromIndex(i)));
				va.push_back(IsRaw(o, ptr) ? RawValue : ValueOf(*ptr));
				back.push_back(ll(p.RetrieveEntryIndex(ptr)));
				if (reinterpret_cast<std::uintptr_t>(ptr) % Al != 0)
					al = false;
				if (!(it == it) || it == p.end())
					eq = false;
			}
			for (auto it = c.begin(); it != c.end() && cidx.size() < 1000;)
			{
				pidx.push_back(ll(it.GetIndex()));
				auto old = it++;
				if (old == it)
					eq = false;
			}
			for (auto it = p.cbegin(); it != p.cend() && cidx.size() < 1000; ++it)
			{
				cidx.push_back(ll(it.GetIndex()));
				if (PtrId(&*it) != PtrId(c.RetrieveFromIndex(it.GetIndex())))
					eq = false;
			}
			e.sz("ac", p.GetAllocatedEntryCount()).sz("fc", p.GetFreeEntryCount()).sz("nb", p.GetBlockCount()).sz("bs", p.GetBlockSize()).sz("sz", p.size());
		}
		else
			e.i("ac", 0).i("fc", 0).i("nb", 0).i("bs", gonebs).i("sz", 0);
		e.arr("idx", idx).arr("cidx", cidx).arr("pidx", pidx).arr("va", va).arr("ad", ad).arr("itad", itad).arr("cad", cad).arr("back", back);
		e.b("al", al).b("eq", eq);
		return e.str();
	}
	ll gonebs = 1;

	void Emit(Ev& e, std::size_t o, int p = -1)
	{
		e.i("o", ll(o) + 1);
		std::vector<std::vector<ll>> ev;
		ev.swap(Reg().ev);
		std::string S = "[" + State(o);
		if (p >= 0)
		{
			e.i("p", p + 1);
			S += "," + State(std::size_t(p));
		}
		e.raw("S", S + "]");
		if (life)
			e.arr2("ev", ev);
		Reg().ev.clear();
		e.emit();
	}

	// entries that were never constructed cannot be destroyed by the pool
	void FreeRaw(std::size_t o)
	{
		for (std::size_t k = 0; k < known[o].size();)
		{
			if (!known[o][k].raw)
			{
				++k;
				continue;
			}
			std::size_t i = known[o][k].index;
			known[o].erase(known[o].begin() + long(k));
			pool[o]->Free(i, Pool::NoDestruction);
			Ev e("Free");
			e.sz("i", i).i("how", 1);
			Emit(e, o);
		}
	}

	Known* Pick(std::size_t o, const Op& op)
	{
		auto& v = known[o];
		if (v.empty())
			return nullptr;
		if (op.has("idx"))
		{
			for (auto& k : v)
				if (ll(k.index) == op.get("idx"))
					return &k;
			return nullptr;
		}
		return &v[Mod(op.get("i"), v.size())];
	}

	void Step(const Op& op)
	{
		SetDuring(Describe(op));
		const std::string& n = op.name;
		std::size_t o = Mod(op.get("o"), N);
		int v = int(Mod(op.get("v", 1), 1000)) ;
		ll how = op.get("how");
		if (n == "Begin")
		{
			for (std::size_t k = 0; k < N; ++k)
			{
				if (pool[k])
				{
					FreeRaw(k);
					Gone(k);
				}
			}
			std::vector<ll> b;
			auto want = op.list("bs");
			maxLive = std::size_t(op.get("live", 90));
			for (std::size_t k = 0; k < N; ++k)
			{
				b.push_back(k < want.size() ? want[k] : 2);
				pool[k].emplace(std::size_t(b[k]));
			}
			Ev e("Begin");
			e.arr("bs", b);
			Reg().ev.clear();
			e.emit();
			return;
		}
		if (!pool[o])
			return;
		Pool& p = *pool[o];
		if (n == "Alloc")
		{
			if (known[o].size() > maxLive)
				return;
			std::size_t index = 12345;
			T* ptr = nullptr;
			if (Mod(how, 3) == 1)
			{
				ptr = p.Allocate(Pool::DeferConstruct, index);
				known[o].push_back({ index, ptr, true });
				Ev e("Alloc");
				e.sz("i", index).i("a", PtrId(ptr)).i("v", RawValue);
				return Emit(e, o);
			}
			if constexpr (Tracked)
			{
				if (op.get("thr"))
				{
					Reg().countdown = 1;
					Reg().fired = false;
					bool threw = false;
					try { ptr = p.Allocate(index, v); }
					catch (const Injected&) { threw = true; }
					Reg().countdown = -1;
					if (threw)
					{
						Ev e("AllocFailed");
						return Emit(e, o);
					}
					known[o].push_back({ index, ptr, false });
					Ev e("AllocNoThrow"); // the exception did not reach the caller
					return Emit(e, o);
				}
			}
			else if (op.get("thr"))
				return;
			if (Mod(how, 3) == 2)
			{
				ptr = p.Allocate(index);
				v = 0;
			}
			else
				ptr = p.Allocate(index, v);
			known[o].push_back({ index, ptr, false });
			Ev e("Alloc");
			e.sz("i", index).i("a", PtrId(ptr)).i("v", v);
			return Emit(e, o);
		}
		if (n == "AllocNested")
		{
			if constexpr (Nests<T>)
			{
				if (known[o].size() > maxLive)
					return;
				std::size_t index = 12345, index2 = 54321;
				T* ptr2 = nullptr;
				auto nest = [&] { ptr2 = p.Allocate(index2, v + 1); };
				T* ptr = p.Allocate(index, nest, v);
				known[o].push_back({ index, ptr, false });
				known[o].push_back({ index2, ptr2, false });
				Ev e("AllocNested");
				e.sz("i", index).i("a", PtrId(ptr)).i("v", v).sz("j", index2).i("b", PtrId(ptr2)).i("w", v + 1);
				return Emit(e, o);
			}
			return;
		}
		if (n == "Construct")
		{
			Known* k = Pick(o, op);
			if (!op.has("idx"))
				for (auto& x : known[o])
					if (x.raw) k = &x;
			if (!k || !k->raw)
				return;
			new (static_cast<void*>(k->ptr)) T(v);
			k->raw = false;
			Ev e("Construct");
			e.sz("i", k->index).i("v", v);
			return Emit(e, o);
		}
		if (n == "Assign")
		{
			Known* k = Pick(o, op);
			if (!k || k->raw)
				return;
			T* ptr = p.RetrieveFromIndex(k->index);
			if (how % 2)
			{
				for (auto it = p.begin(); it != p.end(); ++it)
					if (it.GetIndex() == k->index)
						ptr = &*it;
			}
			SetValue(*ptr, v);
			Ev e("Assign");
			e.sz("i", k->index).i("v", v);
			return Emit(e, o);
		}
		if (n == "Free")
		{
			Known* k = Pick(o, op);
			if (!k)
				return;
			if (k->raw)
				how = 1;
			Known c = *k;
			known[o].erase(known[o].begin() + (k - known[o].data()));
			how = how & 1;
			if (how == 0)
				p.Free(c.index);
			else
			{
				if (!c.raw)
					c.ptr->~T();
				p.Free(c.index, Pool::NoDestruction);
			}
			Ev e("Free");
			e.sz("i", c.index).i("how", how);
			return Emit(e, o);
		}
		if (n == "FreeNested")
		{
			if constexpr (Nests<T>)
			{
				auto& kn = known[o];
				if (kn.size() < 2)
					return;
				std::size_t a = Mod(op.get("i"), kn.size());
				std::size_t b = Mod(op.get("j"), kn.size());
				if (a == b || kn[a].raw || kn[b].raw)
					return;
				std::size_t i = kn[a].index, j = kn[b].index;
				if (a < b) std::swap(a, b);
				kn.erase(kn.begin() + long(a));
				kn.erase(kn.begin() + long(b));
				std::function<void()> f = [&p, j] { p.Free(j); };
				Elem::Hook = &f;
				p.Free(i);
				Elem::Hook = nullptr;
				Ev e("FreeNested");
				e.sz("i", i).sz("j", j);
				return Emit(e, o);
			}
			return;
		}
		if (n == "FreeAlloc")
		{
			// the destructor of the freed entry asks the pool for another one
			if constexpr (Nests<T>)
			{
				Known* k = Pick(o, op);
				if (!k || k->raw || known[o].size() > maxLive)
					return;
				Known c = *k;
				known[o].erase(known[o].begin() + (k - known[o].data()));
				std::size_t index2 = 54321;
				T* ptr2 = nullptr;
				std::function<void()> f = [&] { ptr2 = p.Allocate(index2, v + 1); };
				Elem::Hook = &f;
				p.Free(c.index);
				Elem::Hook = nullptr;
				known[o].push_back({ index2, ptr2, false });
				Ev e("FreeAlloc");
				e.sz("i", c.index).sz("j", index2).i("b", PtrId(ptr2)).i("w", v + 1);
				return Emit(e, o);
			}
			return;
		}
		if (n == "Reset" || n == "Clear")
		{
			FreeRaw(o);
			if (n == "Reset") p.Reset(); else p.Clear();
			known[o].clear();
			Ev e(n);
			return Emit(e, o);
		}
		if (n == "New")
		{
			FreeRaw(o);
			known[o].clear();
			std::size_t b = std::max<std::size_t>(1, Mod(op.get("n", 2), 400));
			pool[o].reset();
			pool[o].emplace(b);
			Ev e("New");
			e.sz("n", b);
			return Emit(e, o);
		}
		if (n == "Move")
		{
			std::size_t q = Mod(op.get("p"), N);
			if (!pool[q])
				return;
			if (q == o)
			{
				// a pool moved into itself keeps its entries
				auto& same = p;
				p = std::move(same);
				Ev e("MoveSelf");
				return Emit(e, o);
			}
			FreeRaw(o);
			if (how % 2 == 0)
				p = std::move(*pool[q]);
			else
			{
				pool[o].reset();
				pool[o].emplace(std::move(*pool[q]));
			}
			known[o] = known[q];
			known[q].clear();
			Ev e("Move");
			e.i("how", how);
			return Emit(e, o, int(q));
		}
		if (n == "Foreign")
		{
			std::vector<ll> ret;
			alignas(T) static thread_local unsigned char outside[sizeof(T)];
			ret.push_back(Look(p, reinterpret_cast<T*>(outside)));
			for (std::size_t q = 0; q < N; ++q)
				if (q != o)
					for (auto& k : known[q])
						ret.push_back(Look(p, k.ptr));
#ifndef NZV_THREADED // where the race detector's allocator lays blocks side by side
			// just before the first and after the last place of each block
			std::size_t stride = std::max<std::size_t>(sizeof(T), Al);
			stride = (stride + Al - 1) / Al * Al;
			for (auto& k : known[o])
			{
				if (k.index % p.GetBlockSize() == p.GetBlockSize() - 1)
					ret.push_back(Look(p, reinterpret_cast<T*>(reinterpret_cast<char*>(k.ptr) + stride)));
				if (k.index % p.GetBlockSize() == 0)
					ret.push_back(Look(p, reinterpret_cast<T*>(reinterpret_cast<char*>(k.ptr) - stride)));
			}
#endif
			Ev e("Foreign");
			e.arr("ret", ret);
			return Emit(e, o);
		}
		if (n == "Observe")
		{
			Ev e("Observe");
			return Emit(e, o);
		}
	}
	ll Look(Pool& p, T* ptr)
	{
		std::size_t r = p.RetrieveEntryIndex(ptr);
		return r == Pool::InvalidIndex ? -1 : ll(r);
	}

	void Gone(std::size_t o)
	{
		SetDuring("Gone");
		gonebs = ll(pool[o]->GetBlockSize());
		pool[o].reset();
		known[o].clear();
		Ev e("Gone");
		Emit(e, o);
	}

	void Run(const std::vector<Op>& script)
	{
		for (const Op& op : script)
			Step(op);
		for (std::size_t k = 0; k < N; ++k)
			if (pool[k])
			{
				FreeRaw(k);
				Gone(k);
			}
	}
};

template<typename T, std::size_t Al> void Go(const std::vector<Op>& s, bool life)
{
	auto d = std::make_unique<Drv<T, Al>>();
	d->life = life && Drv<T, Al>::Tracked;
	Reg().log = d->life;
	d->Run(s);
}

static void Run(const std::vector<Op>& s, const std::string& cfg0)
{
	std::string cfg = cfg0;
	bool life = false;
	if (auto plus = cfg.find('+'); plus != std::string::npos)
	{
		life = true;
		cfg.resize(plus);
	}
	if (cfg == "elem") return Go<Elem, alignof(Elem)>(s, life);
	if (cfg == "elem64") return Go<Elem, 64>(s, life);
	if (cfg == "big") return Go<Big, alignof(Big)>(s, life);
	if (cfg == "int") return Go<int, alignof(int)>(s, life);
	if (cfg == "int32") return Go<int, 32>(s, life);
	std::exit(2);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
