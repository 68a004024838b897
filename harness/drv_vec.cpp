// Conformance driver of FixedVector, HybridVector, StackVector and StackArray.
#include "trk.hpp"
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <algorithm>
#include <iterator>
#include <list>
#include <memory>
#include <optional>

using namespace nzv;

using TFull = Trk<true, true, true>;
using TMove = Trk<false, true, true>;
using TNoDef = Trk<true, false, true>;
using TThrow = Trk<true, true, false>;
using TAlign = Trk<true, true, true, 64>;

template<typename T> struct ElemTraits
{
	static constexpr bool copy = T::CanCopy;
	static constexpr bool def = T::CanDefault;
	static T Make(int v) { return T(v); }
};
template<> struct ElemTraits<int>
{
	static constexpr bool copy = true;
	static constexpr bool def = true;
	static int Make(int v) { return v; }
};

template<typename T> const void* AddrOf(const T& t) { return static_cast<const void*>(std::addressof(t)); }

// storage given to stack containers: exactly the requested size, so that any overrun is caught
template<typename T> struct Storage
{
	std::vector<void*> blocks;
	T* get(std::size_t n)
	{
		void* p = ::operator new((n ? n : 1) * sizeof(T), std::align_val_t(alignof(T)));
		blocks.push_back(p);
		return static_cast<T*>(p);
	}
	~Storage()
	{
		for (void* p : blocks)
			::operator delete(p, std::align_val_t(alignof(T)));
	}
};

enum class Kind { Fixed, Hybrid, Stack, Array };

template<typename V, typename T, Kind K, std::size_t C>
struct Drv
{
	using E = ElemTraits<T>;
	static constexpr std::size_t N = 3;
	static constexpr bool Large = C >= 100; // sizes around the limits of the narrow integer types
	static constexpr std::size_t MaxLen = Large ? 2 * C + 10 : 40;
	static constexpr std::size_t Cut = Large ? 3 * C : 200; // of what is recorded, should a size be absurd

	Storage<T> store;
	std::optional<V> obj[N];
	bool life = false;
	ll thr = 0;
	bool threw = false;

	std::size_t cap[N] = {};
	void Build(std::size_t o, std::size_t c)
	{
		cap[o] = c;
		if constexpr (K == Kind::Stack)
			obj[o].emplace(store.get(c), c);
		else if constexpr (K == Kind::Array)
			obj[o].emplace(store.get(c), c);
		else
			obj[o].emplace();
	}

	V& At(std::size_t o) { return *obj[o]; }
	std::size_t Cap(std::size_t o) const
	{
		if constexpr (K == Kind::Hybrid) return MaxLen;
		else if constexpr (K == Kind::Fixed) return C;
		else return cap[o];
	}

	static std::vector<int> Vals(const V& v)
	{
		std::vector<int> r;
		std::size_t n = std::min<std::size_t>(v.size(), Cut);
		for (std::size_t i = 0; i < n; ++i)
			r.push_back(ValueOf(v.data()[i]));
		return r;
	}

	std::vector<ll> Addrs(const V& v)
	{
		std::vector<ll> r;
		std::size_t n = std::min<std::size_t>(v.size(), Cut);
		for (std::size_t i = 0; i < n; ++i)
			r.push_back(Reg().Id(AddrOf(v.data()[i])));
		return r;
	}

	void St(Ev& e, std::size_t o, const char* st = "st", const char* ad = "ad")
	{
		e.arr(st, Vals(At(o)));
		if (life)
			e.arr(ad, Addrs(At(o)));
	}

	void Emit(Ev& e, std::size_t o, int p = -1)
	{
		e.i("o", ll(o) + 1);
		St(e, o);
		if (p >= 0)
		{
			e.i("p", p + 1);
			St(e, std::size_t(p), "st2", "ad2");
		}
		if (life)
			e.arr2("ev", Reg().ev);
		if (thr > 0)
			e.b("thr", threw).b("fired", Reg().fired);
		Reg().ev.clear();
		e.emit();
	}

	// runs a container call, with the injection armed when the script asks for it
	template<typename F> bool Call(F f)
	{
		threw = false;
		Reg().fired = false;
		if (thr <= 0)
		{
			f();
			return true;
		}
		Reg().countdown = long(thr);
		try
		{
			f();
			Reg().countdown = -1;
			return true;
		}
		catch (const Injected&)
		{
			Reg().countdown = -1;
			threw = true;
			return false;
		}
	}

	template<typename It> static std::vector<int> Walk(It b, It e)
	{
		std::vector<int> r;
		for (; b != e && r.size() < Cut; ++b)
			r.push_back(ValueOf(*b));
		return r;
	}

	void Observe(std::size_t o)
	{
		V& v = At(o);
		const V& c = v;
		Ev e("Observe");
		std::size_t n = std::min<std::size_t>(v.size(), Cut);
		e.sz("size", v.size()).b("empty", v.empty());
		e.arr("it", Walk(v.begin(), v.end())).arr("cit", Walk(c.begin(), c.end())).arr("ccit", Walk(v.cbegin(), v.cend()));
		e.arr("rit", Walk(v.rbegin(), v.rend())).arr("crit", Walk(c.rbegin(), c.rend())).arr("ccrit", Walk(v.crbegin(), v.crend()));
		std::vector<int> idx, cidx, dat, cdat;
		for (std::size_t i = 0; i < n; ++i)
		{
			idx.push_back(ValueOf(v[i]));
			cidx.push_back(ValueOf(c[i]));
			dat.push_back(ValueOf(v.data()[i]));
			cdat.push_back(ValueOf(c.data()[i]));
		}
		e.arr("idx", idx).arr("cidx", cidx).arr("dat", dat).arr("cdat", cdat);
		if (n > 0)
			e.arr("ends", std::vector<int>{ ValueOf(v.front()), ValueOf(c.front()), ValueOf(v.back()), ValueOf(c.back()) });
		else
			e.arr("ends", std::vector<int>{});
		// non-const access gives the element itself
		e.b("same", n == 0 || (&v[0] == v.data() && &v.front() == v.data() && &*v.begin() == v.data() && &v.back() == v.data() + (n - 1) && &c[n - 1] == v.data() + (n - 1)));
		if constexpr (K != Kind::Array)
			e.sz("cap", v.capacity());
		e.sz("max", v.max_size());
		Emit(e, o);
	}

	void Run(const std::vector<Op>& script)
	{
		for (std::size_t o = 0; o < N; ++o)
			Build(o, C);
		for (const Op& op : script)
			Step(op);
		for (std::size_t o = 0; o < N; ++o)
			Gone(o);
	}

	// destroys an object: none of its elements may remain
	void Gone(std::size_t o)
	{
		if (!obj[o])
			return;
		SetDuring("Gone");
		Reg().ev.clear();
		obj[o].reset();
		Build(o, K == Kind::Array ? 0 : C);
		Ev e("New");
		e.i("cap", ll(Cap(o))).i("how", 9);
		Emit(e, o);
	}

	void Begin()
	{
		for (std::size_t o = 0; o < N; ++o)
		{
			obj[o].reset();
			Build(o, K == Kind::Array ? 0 : C);
		}
		Reg().ev.clear();
		Ev e("Begin");
		std::vector<ll> caps;
		for (std::size_t o = 0; o < N; ++o)
			caps.push_back(K == Kind::Hybrid ? -1 : ll(Cap(o)));
		e.arr("caps", caps);
		e.emit();
	}

	std::vector<int> Pattern(const Op& op, std::size_t max) const
	{
		std::vector<int> r;
		for (ll k = 0, n = op.get("fill"); k < n && r.size() < max; ++k)
			r.push_back(int((k * 7 + k / 61 + op.get("v")) % 61 + 1));
		for (ll v : op.list("b"))
			if (r.size() < max)
				r.push_back(int(v));
		return r;
	}

	void Step(const Op& op)
	{
		SetDuring(op.name);
		if (op.name == "Begin")
			return Begin();
		thr = op.get("thr");
		threw = false;
		Reg().fired = false;
		Reg().ev.clear();
		std::size_t o = Mod(op.get("o"), N), p = Mod(op.get("p"), N);
		const std::string& n = op.name;
		if (n == "Observe")
			return Observe(o);
		if (n == "Set" || n == "SetAll")
			return DoSet(n, o, op);
		if constexpr (K == Kind::Array)
			StepArray(n, o, p, op);
		else
			StepVector(n, o, p, op);
	}

	void DoSet(const std::string& n, std::size_t o, const Op& op)
	{
		V& v = At(o);
		int val = int(op.get("v"));
		if (n == "SetAll")
		{
			if constexpr (K == Kind::Array && E::copy)
			{ // temporaries of the driver end before the event is written
				T x = E::Make(val);
				Call([&] { v.fill(x); });
			}
			else
				return;
			Ev e("SetAll");
			e.i("v", val);
			Emit(e, o);
			return;
		}
		if (v.size() == 0)
			return;
		std::size_t i = Mod(op.get("i"), v.size());
		ll how = Mod(op.get("how"), 7);
		switch (how)
		{
			case 0: v[i] = E::Make(val); break;
			case 1: v.data()[i] = E::Make(val); break;
			case 2: *(v.begin() + std::ptrdiff_t(i)) = E::Make(val); break;
			case 3: *(v.end() - std::ptrdiff_t(v.size() - i)) = E::Make(val); break;
			case 4: i = 0; v.front() = E::Make(val); break;
			case 5: i = v.size() - 1; v.back() = E::Make(val); break;
			case 6: *(v.rbegin() + std::ptrdiff_t(v.size() - 1 - i)) = E::Make(val); break;
		}
		Ev e("Set");
		e.sz("i", i).i("v", val).i("how", how);
		Emit(e, o);
	}

	void StepArray(const std::string& n, std::size_t o, std::size_t p, const Op& op)
	{
		if constexpr (K == Kind::Array)
		{
			if (n == "New")
			{
				std::size_t c = Mod(op.get("n"), Large ? C + 1 : 7);
				std::vector<int> pat = Pattern(op, c);
				ll how = Mod(op.get("how"), 3);
				obj[o].reset();
				cap[o] = c;
				T* mem = store.get(c);
				bool done = true;
				if (how == 0)
					done = Call([&] { obj[o].emplace(mem, c); });
				else if (how == 1)
				{
					thr = 0;
					obj[o].emplace(mem, c, typename V::NoInitTag());
					for (std::size_t i = 0; i < c; ++i)
						Nz::PlacementNew(obj[o]->data() + i, E::Make(i < pat.size() ? pat[i] : 0));
				}
				else
				{
					thr = 0;
					c = cap[o] = 0;
					obj[o].emplace();
				}
				if (!done)
				{
					obj[o].emplace();
					c = cap[o] = 0;
				}
				Ev e("NewA");
				std::vector<int> b(c, 0);
				if (how == 1)
					for (std::size_t i = 0; i < c && i < pat.size(); ++i)
						b[i] = pat[i];
				e.i("cap", ll(c)).arr("b", b).i("how", how);
				return Emit(e, o);
			}
			if (n == "MoveCtor" || n == "MoveAssign")
			{
				if (o == p)
				{
					if (n == "MoveCtor")
						return;
					thr = 0;
					auto& same = At(o);
					At(o) = std::move(same);
					Ev e("StackSelfMove");
					return Emit(e, o);
				}
				thr = 0;
				std::size_t c = cap[p];
				if (n == "MoveCtor")
				{
					obj[o].reset();
					obj[o].emplace(std::move(At(p)));
				}
				else
					At(o) = std::move(At(p));
				cap[o] = c;
				cap[p] = 0;
				Ev e("StackMove");
				e.b("ctor", n == "MoveCtor");
				return Emit(e, o, int(p));
			}
			if (n == "Macro")
				return Macro(op);
		}
	}

	void Macro(const Op& op)
	{
		std::size_t c = Mod(op.get("n"), 9);
		std::vector<int> pat = Pattern(op, c);
		pat.resize(c, 3);
		std::vector<int> seen, init;
		std::size_t sz = 0;
		bool aligned = true;
		thr = 0;
		if constexpr (K == Kind::Array)
		{
			auto a = NazaraStackArray(T, c);
			init = Vals(a);
			aligned = reinterpret_cast<std::uintptr_t>(a.data()) % alignof(T) == 0;
			for (std::size_t i = 0; i < c; ++i)
				a[i] = E::Make(pat[i]);
			seen = Vals(a);
			sz = a.size();
			auto b = NazaraStackArrayNoInit(T, c);
			for (std::size_t i = 0; i < c; ++i)
				Nz::PlacementNew(b.data() + i, E::Make(pat[i]));
			if (Vals(b) != seen)
				seen.push_back(-5);
		}
		else if constexpr (K == Kind::Stack)
		{
			auto a = NazaraStackVector(T, c);
			aligned = reinterpret_cast<std::uintptr_t>(a.data()) % alignof(T) == 0;
			if (a.capacity() != c || !a.empty())
				seen.push_back(-5);
			for (std::size_t i = 0; i < c; ++i)
				a.push_back(E::Make(pat[i]));
			for (int v : Vals(a))
				seen.push_back(v);
			sz = a.size();
			init.assign(c, 0);
		}
		(void) aligned;
		Ev e("Macro");
		e.arr("b", pat).arr("seen", seen).arr("init", init).sz("size", sz);
		e.i("n", ll(c));
		Emit(e, 0);
	}

	void StepVector(const std::string& n, std::size_t o, std::size_t p, const Op& op)
	{
		if constexpr (K != Kind::Array)
		{
			V& v = At(o);
			std::size_t sz = v.size();
			std::size_t room = Cap(o) > sz ? Cap(o) - sz : 0;
			int val = int(op.get("v"));
			if (n == "New")
				return DoNew(o, op);
			if (n == "Macro")
			{
				if constexpr (K == Kind::Stack)
					return Macro(op);
				return;
			}
			if (n == "Push")
			{
				if (room == 0)
					return;
				ll how = Mod(op.get("how"), 4);
				if constexpr (!E::copy)
					if (how == 0) how = 1;
				if constexpr (!E::def)
					if (how == 3) how = 2;
				const T* ret = nullptr;
				{
					T x = E::Make(val);
					if (how == 0)
					{
						if constexpr (E::copy)
							Call([&] { ret = &v.push_back(x); });
					}
					else if (how == 1)
						Call([&] { ret = &v.push_back(std::move(x)); });
					else if (how == 2)
						Call([&] { ret = &v.emplace_back(val); });
					else
					{
						if constexpr (E::def)
						{
							val = 0;
							Call([&] { ret = &v.emplace_back(); });
						}
					}
				}
				Ev e("Push");
				e.i("v", val).i("how", how).b("ret", ret == nullptr || ret == v.data() + (v.size() - 1));
				return Emit(e, o);
			}
			if (n == "PushAlias")
			{
				if (room == 0 || sz == 0)
					return;
				std::size_t i = Mod(op.get("i"), sz);
				if constexpr (E::copy)
				{
					ll how = Mod(op.get("how"), 2);
					const T* ret = nullptr;
					if (how == 0)
						Call([&] { ret = &v.push_back(v[i]); });
					else
						Call([&] { ret = &v.emplace_back(v[i]); });
					Ev e("PushAlias");
					e.sz("i", i).i("how", how).b("ret", ret == nullptr || ret == v.data() + (v.size() - 1));
					return Emit(e, o);
				}
				return;
			}
			if (n == "Insert")
			{
				if (room == 0)
					return;
				std::size_t i = Mod(op.get("i"), sz + 1);
				ll how = Mod(op.get("how"), 4);
				if constexpr (!E::copy)
					if (how == 0) how = 1;
				std::ptrdiff_t ret = -1;
				{
					T x = E::Make(val);
					if (how == 0)
					{
						if constexpr (E::copy)
							Call([&] { ret = v.insert(v.begin() + std::ptrdiff_t(i), x) - v.begin(); });
					}
					else if (how == 1)
						Call([&] { ret = v.insert(v.cbegin() + std::ptrdiff_t(i), std::move(x)) - v.begin(); });
					else if (how == 2)
						Call([&] { ret = v.emplace(v.cbegin() + std::ptrdiff_t(i), val) - v.begin(); });
					else
					{
						if constexpr (!std::is_same_v<T, int>)
							Call([&] { ret = v.emplace(v.begin() + std::ptrdiff_t(i), val - 1, 1) - v.begin(); });
						else
							Call([&] { ret = v.emplace(v.begin() + std::ptrdiff_t(i), val) - v.begin(); });
					}
				}
				Ev e("Insert");
				e.sz("i", i).i("v", val).i("how", how).i("ret", ret);
				return Emit(e, o);
			}
			if (n == "InsertAlias")
			{
				if (room == 0 || sz == 0)
					return;
				std::size_t i = Mod(op.get("i"), sz + 1);
				std::size_t j = Mod(op.get("j"), sz);
				if constexpr (E::copy)
				{
					ll how = Mod(op.get("how"), 2);
					std::ptrdiff_t ret = -1;
					if (how == 0)
						Call([&] { ret = v.insert(v.begin() + std::ptrdiff_t(i), v[j]) - v.begin(); });
					else
						Call([&] { ret = v.emplace(v.begin() + std::ptrdiff_t(i), v[j]) - v.begin(); });
					Ev e("InsertAlias");
					e.sz("i", i).sz("j", j).i("how", how).i("ret", ret);
					return Emit(e, o);
				}
				return;
			}
			if (n == "Erase")
			{
				if (sz == 0)
					return;
				std::size_t i = Mod(op.get("i"), sz);
				std::ptrdiff_t ret = -1;
				Call([&] { ret = v.erase(v.cbegin() + std::ptrdiff_t(i)) - v.begin(); });
				Ev e("Erase");
				e.sz("i", i).i("ret", ret);
				return Emit(e, o);
			}
			if (n == "EraseRange")
			{
				if constexpr (E::def)
				{
					std::size_t i = Mod(op.get("i"), sz + 1);
					std::size_t j = i + Mod(op.get("j"), sz + 1 - i);
					std::ptrdiff_t ret = -1;
					Call([&] { ret = v.erase(v.cbegin() + std::ptrdiff_t(i), v.cbegin() + std::ptrdiff_t(j)) - v.begin(); });
					Ev e("EraseRange");
					e.sz("i", i).sz("j", j).i("ret", ret);
					return Emit(e, o);
				}
				return;
			}
			if (n == "Pop")
			{
				if (sz == 0)
					return;
				Call([&] { v.pop_back(); });
				Ev e("Pop");
				return Emit(e, o);
			}
			if (n == "Clear")
			{
				v.clear();
				Ev e("Clear");
				return Emit(e, o);
			}
			if (n == "Resize")
			{
				std::size_t c = Mod(op.get("n"), Cap(o) + 1);
				ll how = Mod(op.get("how"), 2);
				if constexpr (!E::copy)
					how = 0;
				if constexpr (!E::def)
					how = 1;
				if (how == 0)
				{
					if constexpr (E::def)
						Call([&] { v.resize(c); });
					val = 0;
				}
				else
				{
					if constexpr (E::copy)
					{
						T x = E::Make(val);
						Call([&] { v.resize(c, x); });
					}
				}
				Ev e("Resize");
				e.sz("n", c).i("v", val).i("how", how);
				return Emit(e, o);
			}
			if (n == "ResizeAlias")
			{
				if (sz == 0)
					return;
				if constexpr (E::copy)
				{
					std::size_t c = Mod(op.get("n"), Cap(o) + 1);
					std::size_t i = Mod(op.get("i"), sz);
					Call([&] { v.resize(c, v[i]); });
					Ev e("ResizeAlias");
					e.sz("n", c).sz("i", i);
					return Emit(e, o);
				}
				return;
			}
			if (n == "Reserve")
			{
				if constexpr (K != Kind::Stack)
				{
					std::size_t c = Mod(op.get("n"), Cap(o) + 1);
					Call([&] { v.reserve(c); });
					Ev e("Reserve");
					e.sz("n", c).sz("cap", v.capacity());
					return Emit(e, o);
				}
				return;
			}
			if (n == "CopyCtor" || n == "CopyAssign")
			{
				if constexpr (K != Kind::Stack && E::copy)
				{
					if (n == "CopyCtor")
					{
						if (o == p)
							return;
						obj[o].reset();
						if (!Call([&] { obj[o].emplace(std::as_const(At(p))); }))
							obj[o].emplace();
					}
					else
						Call([&] { v = std::as_const(At(p)); });
					Ev e("CopyFrom");
					e.b("ctor", n == "CopyCtor");
					return Emit(e, o, int(p));
				}
				return;
			}
			if (n == "MoveCtor" || n == "MoveAssign")
			{
				if (o == p)
				{
					if (n == "MoveCtor")
						return;
					thr = 0;
					auto& same = At(o);
					At(o) = std::move(same);
					Ev e(K == Kind::Stack ? "StackSelfMove" : "SelfMove");
					Emit(e, o);
					if (K != Kind::Stack && op.get("clr"))
					{
						At(o).clear();
						Ev c2("Clear");
						Emit(c2, o);
					}
					return;
				}
				thr = 0; // noexcept
				std::size_t c = cap[p];
				if (n == "MoveCtor")
				{
					obj[o].reset();
					obj[o].emplace(std::move(At(p)));
				}
				else
					v = std::move(At(p));
				if constexpr (K == Kind::Stack)
				{
					cap[o] = c;
					cap[p] = 0;
					Ev e("StackMove");
					e.b("ctor", n == "MoveCtor");
					Emit(e, o, int(p));
				}
				else
				{
					Ev e("MoveFrom");
					e.b("ctor", n == "MoveCtor");
					Emit(e, o, int(p));
					if (op.get("clr"))
					{
						At(p).clear();
						Ev c2("Clear");
						Emit(c2, p);
					}
				}
				return;
			}
		}
	}

	void DoNew(std::size_t o, const Op& op)
	{
		ll how = Mod(op.get("how"), 5);
		if constexpr (K == Kind::Stack)
		{
			std::size_t c = Mod(op.get("n"), Large ? C + 1 : 9);
			obj[o].reset();
			thr = 0;
			if (how == 1)
			{
				obj[o].emplace();
				cap[o] = c = 0;
			}
			else
				Build(o, c);
			Ev e("New");
			e.i("cap", ll(c)).i("how", how);
			return Emit(e, o);
		}
		else if constexpr (K != Kind::Array)
		{
			std::vector<int> pat = Pattern(op, Cap(o));
			std::vector<int> want;
			int val = int(op.get("v"));
			std::size_t c = Mod(op.get("n"), Cap(o) + 1);
			if constexpr (!E::copy)
				if (how != 0) how = 2;
			bool ok = true;
			obj[o].reset();
			if (how == 0)
				obj[o].emplace();
			else if (how == 1)
			{
				if constexpr (E::copy)
				{
					T x = E::Make(val);
					ok = Call([&] { obj[o].emplace(c, x); });
					want.assign(c, val);
				}
			}
			else if (how == 2 || how == 4)
			{
				if (how == 2)
				{
					// forward iterators of another type
					std::list<short> l(pat.begin(), pat.end());
					ok = Call([&] { obj[o].emplace(l.begin(), l.end()); });
				}
				else
				{
					if constexpr (E::copy)
					{
						std::vector<T> l;
						l.reserve(pat.size());
						for (int x : pat)
							l.push_back(E::Make(x));
						ok = Call([&] { obj[o].emplace(l.data(), l.data() + l.size()); });
					}
				}
				want = pat;
			}
			else
			{
				if constexpr (E::copy)
				{
					want = pat;
					want.resize(std::min<std::size_t>(want.size(), 3));
					while (want.size() < 3 && want.size() < Cap(o))
						want.push_back(val);
					if (want.size() == 3)
					{
						T a = E::Make(want[0]), b = E::Make(want[1]), d = E::Make(want[2]);
						ok = Call([&] { obj[o].emplace(std::initializer_list<T>{ a, b, d }); });
					}
					else
					{
						want.clear();
						ok = Call([&] { obj[o].emplace(std::initializer_list<T>{}); });
					}
				}
			}
			if (!ok)
				obj[o].emplace();
			Ev e("NewV");
			e.arr("b", want).i("how", how);
			return Emit(e, o);
		}
	}
};

template<typename V, typename T, Kind K, std::size_t C> void Go(const std::vector<Op>& s, bool life)
{
	auto d = std::make_unique<Drv<V, T, K, C>>();
	d->life = life;
	Reg().log = life;
	d->Run(s);
	d.release(); // the objects have been checked; keep storage alive until the end
}

static void Run(const std::vector<Op>& s, const std::string& cfg0)
{
	std::string cfg = cfg0;
	bool life = false;
	auto plus = cfg.find('+');
	if (plus != std::string::npos)
	{
		life = true;
		cfg = cfg.substr(0, plus);
	}
#if GROUP == 0
	if (cfg == "f4") return Go<Nz::FixedVector<TFull, 4>, TFull, Kind::Fixed, 4>(s, life);
	if (cfg == "f1") return Go<Nz::FixedVector<TFull, 1>, TFull, Kind::Fixed, 1>(s, life);
	if (cfg == "f6a") return Go<Nz::FixedVector<TAlign, 6>, TAlign, Kind::Fixed, 6>(s, life);
	if (cfg == "f5m") return Go<Nz::FixedVector<TMove, 5>, TMove, Kind::Fixed, 5>(s, life);
	if (cfg == "f5n") return Go<Nz::FixedVector<TNoDef, 5>, TNoDef, Kind::Fixed, 5>(s, life);
	if (cfg == "f5t") return Go<Nz::FixedVector<TThrow, 5>, TThrow, Kind::Fixed, 5>(s, life);
	if (cfg == "f256") return Go<Nz::FixedVector<TFull, 256>, TFull, Kind::Fixed, 256>(s, life);
	if (cfg == "f64k") return Go<Nz::FixedVector<int, 65536>, int, Kind::Fixed, 65536>(s, life);
	if (cfg == "f7i") return Go<Nz::FixedVector<int, 7>, int, Kind::Fixed, 7>(s, life);
#elif GROUP == 1
	if (cfg == "h1") return Go<Nz::HybridVector<TFull, 1>, TFull, Kind::Hybrid, 1>(s, life);
	if (cfg == "h2") return Go<Nz::HybridVector<TFull, 2>, TFull, Kind::Hybrid, 2>(s, life);
	if (cfg == "h5") return Go<Nz::HybridVector<TFull, 5>, TFull, Kind::Hybrid, 5>(s, life);
	if (cfg == "h256") return Go<Nz::HybridVector<TFull, 256>, TFull, Kind::Hybrid, 256>(s, life);
	if (cfg == "h64k") return Go<Nz::HybridVector<int, 65536>, int, Kind::Hybrid, 65536>(s, life);
	if (cfg == "h3m") return Go<Nz::HybridVector<TMove, 3>, TMove, Kind::Hybrid, 3>(s, life);
#elif GROUP == 2
	if (cfg == "h3n") return Go<Nz::HybridVector<TNoDef, 3>, TNoDef, Kind::Hybrid, 3>(s, life);
	if (cfg == "h3t") return Go<Nz::HybridVector<TThrow, 3>, TThrow, Kind::Hybrid, 3>(s, life);
	if (cfg == "h3a") return Go<Nz::HybridVector<TAlign, 3>, TAlign, Kind::Hybrid, 3>(s, life);
	if (cfg == "h4i") return Go<Nz::HybridVector<int, 4>, int, Kind::Hybrid, 4>(s, life);
#else
	if (cfg == "s5") return Go<Nz::StackVector<TFull>, TFull, Kind::Stack, 5>(s, life);
	if (cfg == "s5m") return Go<Nz::StackVector<TMove>, TMove, Kind::Stack, 5>(s, life);
	if (cfg == "s5t") return Go<Nz::StackVector<TThrow>, TThrow, Kind::Stack, 5>(s, life);
	if (cfg == "s7i") return Go<Nz::StackVector<int>, int, Kind::Stack, 7>(s, life);
	if (cfg == "s256") return Go<Nz::StackVector<TFull>, TFull, Kind::Stack, 256>(s, life);
	if (cfg == "a256") return Go<Nz::StackArray<TFull>, TFull, Kind::Array, 256>(s, life);
	if (cfg == "s64k") return Go<Nz::StackVector<int>, int, Kind::Stack, 65536>(s, life);
	if (cfg == "a64k") return Go<Nz::StackArray<int>, int, Kind::Array, 65536>(s, life);
	if (cfg == "a5") return Go<Nz::StackArray<TFull>, TFull, Kind::Array, 5>(s, life);
	if (cfg == "a5m") return Go<Nz::StackArray<TMove>, TMove, Kind::Array, 5>(s, life);
	if (cfg == "a5t") return Go<Nz::StackArray<TThrow>, TThrow, Kind::Array, 5>(s, life);
#endif
	std::fprintf(stderr, "unknown config %s\n", cfg.c_str());
	std::exit(2);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
