// Conformance driver of SparsePtr.
#include "nzv.hpp"
#include <NazaraUtils/SparsePtr.hpp>
#include <cstring>
#include <limits>
#include <memory>
#include <vector>

using namespace nzv;
using i128 = __int128;
struct Base1 { int a; };
struct Base2 { int b; int b2; };
struct Derived : Base1, Base2 { int c; };

alignas(16) static thread_local unsigned char g_arena[1 << 16];

template<typename T, bool Huge> struct Drv
{
	using P = Nz::SparsePtr<T>;
	using Raw = std::remove_const_t<T>;
	static constexpr std::size_t N = 3;
	static constexpr ll Al = ll(alignof(T));
	P obj[N];
	static ll Lo() { return Huge ? (1LL << 20) : ll(reinterpret_cast<std::uintptr_t>(g_arena)); }
	static ll Hi() { return Huge ? (1LL << 46) : Lo() + ll(sizeof(g_arena)); }
	static auto Ptr(ll a) { return reinterpret_cast<typename P::VoidPtr>(static_cast<std::uintptr_t>(a)); }
	template<typename Q> static ll Addr(Q* p) { return ll(reinterpret_cast<std::uintptr_t>(p)); }
	ll Where(std::size_t o) { return Addr(obj[o].GetPtr()); }
	void Emit(Ev& e, std::size_t o, int p = -1)
	{
		e.i("o", ll(o) + 1);
		if (p >= 0) e.i("p", p + 1);
		e.arr2("s", std::vector<std::vector<ll>>{ Ev::Big(Where(o)), Ev::Big(ll(obj[o].GetStride())) });
		e.emit();
	}
	static ll Place(ll a)
	{
		ll span = (Hi() - Lo()) / Al;
		return Lo() + (span / 2 + ll(Mod(a, std::size_t(span / 2)))) / 1 * Al;
	}
	static int Stride(ll st)
	{
		if (st > std::numeric_limits<int>::max() || st < std::numeric_limits<int>::min()) st %= 1000;
		return int(st / Al * Al);
	}

	// applies f with the count n as a value of the type chosen by ty, brought into range
	template<typename F> static void WithCount(ll ty, ll n, i128 lo, i128 hi, F f)
	{
		auto go = [&](auto zero)
		{
			using U = decltype(zero);
			i128 l = lo, h = hi;
			i128 tl = std::numeric_limits<U>::min(), th = std::numeric_limits<U>::max();
			if (th > std::numeric_limits<std::int64_t>::max()) th = std::numeric_limits<std::int64_t>::max();
			if (l < tl) l = tl;
			if (h > th) h = th;
			if (l > h) return;
			i128 v = n;
			if (v < l || v > h)
			{
				i128 m = v % (h - l + 1);
				v = l + (m < 0 ? m + (h - l + 1) : m);
			}
			f(static_cast<U>(v));
		};
		switch (Mod(ty, 11))
		{
			case 0: return go(int(0));
			case 1: return go(static_cast<unsigned>(0));
			case 2: return go(static_cast<std::int64_t>(0));
			case 3: return go(std::size_t(0));
			case 4: return go(static_cast<signed char>(0));
			case 5: return go(static_cast<unsigned char>(0));
			case 6: return go(short(0));
			case 7: return go(static_cast<unsigned short>(0));
			case 8: return go(static_cast<long long>(0));
			case 9: return go(static_cast<unsigned long long>(0));
			default: return go(char(0));
		}
	}
	// counts that keep a within the window
	static void Window(ll a, ll st, ll end, i128& lo, i128& hi)
	{
		if (st == 0 || a == 0)
		{
			lo = st == 0 ? -(i128(1) << 62) : 0;
			hi = st == 0 ? (i128(1) << 62) : 0;
			return;
		}
		i128 s = st < 0 ? -i128(st) : i128(st);
		i128 down = (i128(a) - Lo()) / s, up = (i128(end) - a) / s;
		if (st > 0) { lo = -down; hi = up; }
		else { lo = -up; hi = down; }
	}

	void Step(const Op& op)
	{
		SetDuring(Describe(op));
		const std::string& n = op.name;
		std::size_t o = Mod(op.get("o"), N), p = Mod(op.get("p"), N);
		ll how = op.get("how");
		if (n == "Begin")
		{
			Ev("Begin").emit();
			for (std::size_t k = 0; k < N; ++k)
			{
				int st = int(Al);
				obj[k] = P(Ptr(Place(0)), st);
				Ev e("New");
				e.big("a", Place(0)).big("st", st);
				Emit(e, k);
			}
			return;
		}
		P& x = obj[o];
		if (n == "New")
		{
			ll a = Place(op.get("a"));
			int st = Stride(op.get("st"));
			auto ptr = Ptr(a);
			T* tp = static_cast<T*>(ptr);
			switch (Mod(how, 8))
			{
				case 1: if (st < 0) st = -(st + int(Al)); x = P(ptr, static_cast<std::size_t>(st)); break;
				case 2: x.Reset(ptr, st); break;
				case 3: x = P(tp); st = int(sizeof(T)); break;
				case 4: x.Reset(tp); st = int(sizeof(T)); break;
				case 5: { Nz::SparsePtr q(tp, st); static_assert(std::is_same_v<decltype(q), P>); x.Reset(q); break; }
				case 6: { Nz::SparsePtr q(tp); static_assert(std::is_same_v<decltype(q), P>); x = q; st = int(sizeof(T)); break; }
				case 7: if (st < 0) st = -(st + int(Al)); { Nz::SparsePtr q(tp, static_cast<std::size_t>(st)); static_assert(std::is_same_v<decltype(q), P>); x = q; break; }
				default: x = P(ptr, st);
			}
			Ev e("New");
			e.big("a", a).big("st", st).i("how", how);
			return Emit(e, o);
		}
		if (n == "Null")
		{
			if (how & 1) x.Reset();
			else x = P();
			Ev e("Null");
			return Emit(e, o);
		}
		if (n == "SetPtr")
		{
			ll a = Place(op.get("a"));
			x.SetPtr(Ptr(a));
			Ev e("SetPtr");
			e.big("a", a);
			return Emit(e, o);
		}
		if (n == "SetStride")
		{
			int st = Stride(op.get("st"));
			x.SetStride(st);
			Ev e("SetStride");
			e.big("st", st);
			return Emit(e, o);
		}
		if (n == "Copy")
		{
			if (how % 3 == 0) x = obj[p];
			else if (how % 3 == 1) x.Reset(obj[p]);
			else { P q(obj[p]); x = q; }
			Ev e("Copy");
			return Emit(e, o, int(p));
		}
		if (n == "Offset")
		{
			how = ll(Mod(how, 6));
			if (how >= 2) p = o;
			P y = obj[p];
			ll a = Where(p), st = y.GetStride(), cnt = op.get("n");
			i128 lo, hi;
			Window(a, st, Hi(), lo, hi);
			if (how >= 4)
			{
				bool inc = cnt >= 0;
				if ((inc && hi < 1) || (!inc && lo > -1)) return;
				Ev e("Offset");
				if (how == 4)
				{
					P& r = inc ? ++x : --x;
					e.b("ref", &r == &x);
				}
				else
				{
					P r = inc ? x++ : x--;
					e.big("was", Addr(r.GetPtr())).b("ref", r.GetStride() == st);
				}
				e.big("n", inc ? 1 : -1);
				return Emit(e, o, int(p));
			}
			bool sub = how & 1;
			WithCount(op.get("ty"), sub ? -cnt : cnt, sub ? -hi : lo, sub ? -lo : hi, [&](auto c)
			{
				bool ref = true;
				if (how == 0) x = y + c;
				else if (how == 1) x = y - c;
				else if (how == 2) ref = &(x += c) == &x;
				else ref = &(x -= c) == &x;
				Ev e("Offset");
				e.big("n", sub ? -i128(c) : i128(c)).b("ref", ref).i("how", how).i("ty", op.get("ty"));
				Emit(e, o, int(p));
			});
			return;
		}
		if (n == "Sub")
		{
			ll a = Where(o), st = x.GetStride();
			if (a == 0) return;
			i128 lo, hi;
			Window(a, st, Hi() - ll(sizeof(T)), lo, hi);
			if (a > Hi() - ll(sizeof(T))) return;
			WithCount(op.get("ty"), op.get("n"), lo, hi, [&](auto c)
			{
				Ev e("Sub");
				e.big("n", i128(c)).big("at", Addr(std::addressof(x[c])));
				Emit(e, o);
			});
			return;
		}
		if (n == "Diff")
		{
			ll st = x.GetStride(), d = Where(o) - Where(p);
			if (st == 0 || obj[p].GetStride() != st || d % st != 0) return;
			Ev e("Diff");
			e.big("ret", ll(x - obj[p]));
			return Emit(e, o, int(p));
		}
		if (n == "Compare")
		{
			const P& y = obj[p];
			Ev e("Compare");
			e.arr("c", std::vector<int>{ x == y, x != y, x < y, x <= y, x > y, x >= y });
			return Emit(e, o, int(p));
		}
		if (n == "Convert")
		{
			ll at = 0, st = 0, off = 0;
			auto conv = [&](auto tag)
			{
				using To = typename decltype(tag)::Type;
				Nz::SparsePtr<To> q;
				if (how & 1) q = Nz::SparsePtr<To>(x);
				else q.Reset(x);
				at = Addr(q.GetPtr());
				st = q.GetStride();
				Raw real{};
				off = Addr(static_cast<To*>(&real)) - Addr(&real);
			};
			if constexpr (std::is_same_v<Raw, Derived>)
			{
				switch (Mod(how / 2, 5))
				{
					case 0: conv(Tag<const Base2>{}); break;
					case 1: if constexpr (!std::is_const_v<T>) conv(Tag<Base2>{}); else conv(Tag<const Base2>{}); break;
					case 2: conv(Tag<const Base1>{}); break;
					case 3: if constexpr (!std::is_const_v<T>) conv(Tag<Base1>{}); else conv(Tag<const Base1>{}); break;
					default: conv(Tag<const Derived>{});
				}
			}
			else conv(Tag<const Raw>{});
			Ev e("Convert");
			e.big("at", at).big("st", st).big("off", off);
			return Emit(e, o);
		}
		if (n == "Deref")
		{
			ll a = Where(o);
			const P& c = x;
			Ev e("Deref");
			std::vector<std::vector<ll>> ats = { Ev::Big(Addr(c.GetPtr())), Ev::Big(Addr(c.operator->())), Ev::Big(Addr(static_cast<T*>(c))) };
			if (a != 0 && a <= Hi() - ll(sizeof(T)))
			{
				ats.push_back(Ev::Big(Addr(std::addressof(*c))));
				ats.push_back(Ev::Big(Addr(std::addressof(c[0]))));
				if constexpr (!Huge)
				{
					int stored = 0;
					std::vector<int> vals;
					if constexpr (std::is_same_v<Raw, Derived>)
					{
						std::memcpy(&stored, Ptr(a), sizeof(stored));
						vals = { (*c).a, c->a, c[0].a };
					}
					else
					{
						Raw r;
						std::memcpy(&r, Ptr(a), sizeof(r));
						stored = int(r);
						vals = { int(*c), int(c[0]) };
						if constexpr (!std::is_const_v<T>)
						{
							*c = Raw(stored + 1);
							vals.push_back(int(Raw(*static_cast<T*>(Ptr(a)) - 1)));
							*c = Raw(stored);
						}
					}
					e.i("stored", stored).arr("vals", vals);
				}
			}
			e.arr2("ats", ats).b("bool", static_cast<bool>(c));
			return Emit(e, o);
		}
	}
	template<typename X> struct Tag { using Type = X; };
	void Run(const std::vector<Op>& s)
	{
		for (std::size_t k = 0; k < sizeof(g_arena); ++k) g_arena[k] = static_cast<unsigned char>(k % 4 == 3 ? 1 : (k * 131 + k / 256 * 7));
		for (auto& x : s)
			Step(x);
	}
};

static void Run(const std::vector<Op>& s, const std::string& cfg)
{
	if (cfg == "huge") return Drv<unsigned char, true>().Run(s);
	if (cfg == "hugec") return Drv<const char, true>().Run(s);
	if (cfg == "u8") return Drv<unsigned char, false>().Run(s);
	if (cfg == "int") return Drv<int, false>().Run(s);
	if (cfg == "cint") return Drv<const int, false>().Run(s);
	if (cfg == "derived") return Drv<Derived, false>().Run(s);
	if (cfg == "cderived") return Drv<const Derived, false>().Run(s);
	std::exit(2);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
