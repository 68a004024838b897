// Conformance driver of CallOnExit, PrivateImpl and the movable wrappers.
#include "trk.hpp"
// one property per program: NZV_PART is 1 (O01), 2 (O02) or 3 (O03)
#if NZV_PART == 1
#include <NazaraUtils/CallOnExit.hpp>
#elif NZV_PART == 2
#include <NazaraUtils/PrivateImpl.hpp>
#else
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#endif
#include <functional>
#include <memory>
#include <optional>

using namespace nzv;
using TFull = Trk<true, true, true>;

#if NZV_PART == 1
// ------------------------------------------------------------------ CallOnExit
struct Boom {};
static thread_local std::vector<int> g_calls;
static thread_local bool g_throw = false;
static thread_local std::function<void()>* g_reenter = nullptr;
static void Ran(int id)
{
	g_calls.push_back(id);
	if (g_reenter)
	{
		auto f = g_reenter;
		g_reenter = nullptr;
		(*f)();
	}
	if (g_throw)
		throw Boom{};
}
struct Fn
{
	std::unique_ptr<int> id;
	explicit Fn(int i) : id(std::make_unique<int>(i)) {}
	Fn(Fn&&) = default;
	Fn& operator=(Fn&&) = default;
	void operator()() { Ran(id ? *id : -1); }
};

template<typename F> struct ExitDrv
{
	static constexpr std::size_t N = 4;
	std::optional<Nz::CallOnExit<F>> obj[N];
	int armed[N] = {};
	int next = 1;

	static F Make(int id)
	{
		if constexpr (std::is_same_v<F, Fn>) return Fn(id);
		else return [id] { Ran(id); };
	}
	void Emit(Ev& e, std::size_t o, int p = -1)
	{
		e.i("o", ll(o) + 1).arr("calls", g_calls);
		g_calls.clear();
		if (p >= 0)
			e.i("p", p + 1);
		e.emit();
	}
	void Gone(std::size_t o)
	{
		obj[o].reset();
		obj[o].emplace();
		armed[o] = 0;
		Ev e("Gone");
		Emit(e, o);
	}
	static void Scope(int n, int how)
	{
		// leaves by the end, by return, by an exception, by a jump
		auto body = [&](int k, auto& self) -> int
		{
			NAZARA_DEFER(g_calls.push_back(k););
			if (k < n)
				return self(k + 1, self);
			if (how % 3 == 1)
				throw Boom{};
			return k;
		};
		if (n == 0)
			return;
		if (how % 2)
		{
			try { body(1, body); } catch (const Boom&) {}
		}
		else
		{
			for (int k = 0; k < 1; ++k)
			{
				if (how % 4 == 0 && n >= 3)
				{
					NAZARA_DEFER(g_calls.push_back(1););
					NAZARA_DEFER(g_calls.push_back(2););
					{
						Nz::CallOnExit third([&] { for (int m = n; m >= 3; --m) g_calls.push_back(m); });
						third.Reset();
						NAZARA_DEFER({ for (int m = n; m >= 3; --m) g_calls.push_back(m); });
						continue;
					}
				}
				try { body(1, body); } catch (const Boom&) {}
			}
		}
	}
	void Step(const Op& op)
	{
		SetDuring(Describe(op));
		const std::string& n = op.name;
		std::size_t o = Mod(op.get("o"), N), p = Mod(op.get("p"), N);
		ll how = op.get("how");
		if (n == "Begin")
		{
			for (auto& x : obj) { x.reset(); x.emplace(); }
			for (auto& x : armed) x = 0;
			g_calls.clear();
			next = 1;
			Ev("Begin").emit();
			return;
		}
		if (n == "New")
		{
			if (armed[o]) Gone(o);
			int id = next++;
			obj[o].reset();
			obj[o].emplace(Make(id));
			armed[o] = id;
			Ev e("New");
			e.i("id", id);
			return Emit(e, o);
		}
		if (n == "Gone")
			return Gone(o);
		if (n == "Reset")
		{
			obj[o]->Reset();
			armed[o] = 0;
			Ev e("Reset");
			return Emit(e, o);
		}
		if (n == "Call" || n == "Move")
		{
			if (n == "Move" && o == p)
				return;
			bool thr = op.get("thr"), threw = false;
			std::function<void()> re;
			if (n == "Call" && how % 4 == 1) re = [&] { obj[o]->CallAndReset(); };
			if (n == "Call" && how % 4 == 2) re = [&] { obj[o]->Reset(); };
			g_reenter = re ? &re : nullptr;
			g_throw = thr;
			try
			{
				if (n == "Call") obj[o]->CallAndReset();
				else *obj[o] = std::move(*obj[p]);
			}
			catch (const Boom&) { threw = true; }
			g_throw = false;
			g_reenter = nullptr;
			if (n == "Call" || threw) armed[o] = 0;
			else { armed[o] = armed[p]; armed[p] = 0; }
			Ev e(n);
			e.b("thr", thr).b("threw", threw);
			return Emit(e, o, n == "Move" ? int(p) : -1);
		}
		if (n == "Scope")
		{
			int k = int(Mod(op.get("n"), 6));
			Scope(k, int(Mod(how, 12)));
			Ev e("Scope");
			e.i("n", k);
			return Emit(e, o);
		}
	}
	void Run(const std::vector<Op>& s)
	{
		for (auto& x : s)
			Step(x);
		for (std::size_t o = 0; o < N; ++o)
			Gone(o);
	}
};

#elif NZV_PART == 2
// ------------------------------------------------------------------ PrivateImpl
using TThrow = Trk<true, true, false>;
using TMove = Trk<false, true, true>;
using TMoveThrow = Trk<false, true, false>;
using TAligned = Trk<true, true, true, 64>;
template<typename B> struct NonAssignOf : B
{
	using B::B;
	NonAssignOf(const NonAssignOf&) = default;
	NonAssignOf(NonAssignOf&&) = default;
	NonAssignOf& operator=(const NonAssignOf&) = delete;
	NonAssignOf& operator=(NonAssignOf&&) = delete;
};
using NonAssign = NonAssignOf<TFull>;

template<typename T, std::size_t B, std::size_t A = alignof(std::max_align_t)> struct PimplDrv
{
	using P = Nz::PrivateImpl<T, B, A>;
	static constexpr bool Inline = B != 0;
	static constexpr std::size_t N = 3;
	std::optional<P> obj[N];

	std::vector<ll> State(std::size_t o)
	{
		if (!obj[o]) return { 0, 0, 0 };
		const P& c = *obj[o];
		const T* t = c.Get();
		if (!t) return { 0, 0, 0 };
		return { 1, t->Get(), Reg().Id(t) };
	}
	void Emit(Ev& e, std::size_t o, int p = -1)
	{
		e.i("o", ll(o) + 1).arr("s", State(o));
		if (p >= 0)
			e.i("p", p + 1).arr("s2", State(std::size_t(p)));
		e.arr2("ev", Reg().ev);
		Reg().ev.clear();
		e.emit();
	}
	// a holder whose constructor threw does not exist: another one takes its place
	void Replace(std::size_t o)
	{
		if constexpr (Inline) obj[o].emplace(0);
		else obj[o].emplace(nullptr);
		Ev e("New");
		e.i("k", Inline).i("v", 0);
		Emit(e, o);
	}
	void Gone(std::size_t o)
	{
		SetDuring("Gone");
		obj[o].reset();
		Ev e("Gone");
		Emit(e, o);
	}
	bool Holds(std::size_t o) { return obj[o] && obj[o]->Get() != nullptr; }
	void Step(const Op& op)
	{
		SetDuring(Describe(op));
		const std::string& n = op.name;
		std::size_t o = Mod(op.get("o"), N), p = Mod(op.get("p"), N);
		int v = int(Mod(op.get("v"), 900));
		ll how = op.get("how");
		bool arm = op.get("thr") != 0, threw = false;
		Reg().countdown = -1;
		if (n == "Begin")
		{
			for (std::size_t k = 0; k < N; ++k)
				if (obj[k]) Gone(k);
			Ev e("Begin");
			e.b("inline", Inline);
			Reg().ev.clear();
			e.emit();
			for (std::size_t k = 0; k < N; ++k)
				Replace(k);
			return;
		}
		if (n == "New")
		{
			int k = op.has("k") ? int(op.get("k")) : (Mod(how, 5) != 0);
			if (Inline) k = 1;
			obj[o].reset();
			if (k == 0)
			{
				if constexpr (!Inline) obj[o].emplace(nullptr);
				v = 0;
			}
			else
			{
				if (arm && (Inline || Mod(how, 4) != 3)) Reg().countdown = 1;
				try
				{
					switch (Mod(how, 4))
					{
						case 0: obj[o].emplace(v); break;
						case 1: obj[o].emplace(v, 5); v += 5; break;
						case 2: obj[o].emplace(); v = 0; break;
						default:
							if constexpr (Inline) { obj[o].emplace(v); }
							else { T* raw = new T(v); obj[o].emplace(raw); }
					}
				}
				catch (const Injected&) { threw = true; }
				Reg().countdown = -1;
				if (threw)
				{
					obj[o].reset();
					Ev f("NewFailed");
					Emit(f, o);
					return Replace(o);
				}
			}
			Ev e("New");
			e.i("k", k).i("v", v);
			return Emit(e, o);
		}
		if (n == "Emplace" || n == "Reset")
		{
			if constexpr (!Inline)
			{
				if (n == "Emplace")
				{
					if (Holds(o)) return;
					if (arm) Reg().countdown = 1;
					try
					{
						T& r = (how & 1) ? obj[o]->Emplace(v, 1) : obj[o]->Emplace(v);
						if (how & 1) ++v;
						if (&r != obj[o]->Get()) v = -1000;
					}
					catch (const Injected&) { threw = true; }
					Reg().countdown = -1;
				}
				else obj[o]->Reset();
				Ev e(n);
				e.i("v", v).b("threw", threw);
				return Emit(e, o);
			}
			return;
		}
		if (n == "Assign")
		{
			if (!Holds(o)) return;
			P& q = *obj[o];
			switch (Mod(how, 4))
			{
				case 0: q->value = v; break;
				case 1: (*q).value = v; break;
				case 2: q.Get()->value = v; break;
				default: { T* t = q; t->value = v; }
			}
			Ev e("Assign");
			e.i("v", v);
			return Emit(e, o);
		}
		if (n == "Copy")
		{
			if constexpr (std::is_copy_constructible_v<T>)
			{
				const P& src = *obj[p];
				bool ctor = (how & 1) && o != p;
				if (ctor) obj[o].reset();
				if (arm && o != p && Holds(p)) Reg().countdown = 1;
				try
				{
					if (ctor) obj[o].emplace(src);
					else *obj[o] = src;
				}
				catch (const Injected&) { threw = true; }
				Reg().countdown = -1;
				if (ctor && threw) obj[o].reset();
				Ev e("Copy");
				e.b("threw", threw).b("ctor", ctor);
				Emit(e, o, int(p));
				if (ctor && threw) Replace(o);
			}
			return;
		}
		if (n == "Move")
		{
			bool ctor = (how & 1) && o != p;
			if (ctor) { obj[o].reset(); obj[o].emplace(std::move(*obj[p])); }
			else *obj[o] = std::move(*obj[p]);
			Ev e("Move");
			e.b("ctor", ctor);
			return Emit(e, o, int(p));
		}
		if (n == "Observe")
		{
			P& q = *obj[o];
			const P& c = q;
			Ev e("Observe");
			std::vector<int> vals;
			bool hv = true, bl = true, same = true;
			if constexpr (!Inline) { hv = c.HasValue(); bl = static_cast<bool>(c); }
			if (q.Get())
			{
				T* t = q;
				const T* ct = c;
				vals = { q.Get()->Get(), c.Get()->Get(), (*q).Get(), (*c).Get(), q->Get(), c->Get(), t->Get(), ct->Get() };
				same = t == q.Get() && ct == t && &*q == t && &*c == t && c.Get() == t && q.operator->() == t && c.operator->() == t;
			}
			else if (c.Get()) same = false;
			e.arr("vals", vals).b("hv", hv).b("bool", bl).b("same", same);
			return Emit(e, o);
		}
	}
	void Run(const std::vector<Op>& s)
	{
		Reg().log = true;
		for (auto& x : s)
			Step(x);
		for (std::size_t o = 0; o < N; ++o)
			Gone(o);
	}
};

#else
// ------------------------------------------------------------------ movable wrappers
static thread_local int g_cells[1000];
struct AsPtr
{
	using W = Nz::MovablePtr<int>;
	using Raw = int*;
	static constexpr const char* kind = "pointer";
	static constexpr int zero = 0;
	static Raw Make(int v) { return v == 0 ? nullptr : &g_cells[v]; }
	static int Val(int* p) { return p == nullptr ? 0 : (p >= g_cells && p < g_cells + 1000 ? int(p - g_cells) : -7); }
	static std::vector<int> All(W& w) { const W& c = w; int* r = c; return { Val(w.Get()), Val(c.Get()), Val(r), Val(c.operator->()) }; }
};
struct AsLit
{
	using W = Nz::MovableLiteral<int, -1>;
	using Raw = int;
	static constexpr const char* kind = "literal";
	static constexpr int zero = -1;
	static Raw Make(int v) { return v; }
	static int Val(int v) { return v; }
	static std::vector<int> All(W& w) { const W& c = w; int& r = w; const int& cr = c; return { w.Get(), c.Get(), r, cr, std::move(w).Get() }; }
};
struct AsLit64
{
	using W = Nz::MovableLiteral<unsigned char, 255>;
	using Raw = unsigned char;
	static constexpr const char* kind = "literal";
	static constexpr int zero = 255;
	static Raw Make(int v) { return Raw(v); }
	static int Val(int v) { return v; }
	static std::vector<int> All(W& w) { const W& c = w; unsigned char& r = w; const unsigned char& cr = c; return { w.Get(), c.Get(), r, cr, std::move(w).Get() }; }
};
struct AsVal
{
	using W = Nz::MovableValue<TFull>;
	using Raw = TFull;
	static constexpr const char* kind = "value";
	static constexpr int zero = 0;
	static Raw Make(int v) { return TFull(v); }
	static int Val(const TFull& v) { return v.Get(); }
	static std::vector<int> All(W& w) { const W& c = w; TFull& r = w; const TFull& cr = c; return { w.Get().Get(), c.Get().Get(), r.Get(), cr.Get() }; }
};

template<typename A> struct MovDrv
{
	using W = typename A::W;
	using Raw = typename A::Raw;
	static constexpr bool IsVal = std::is_same_v<A, AsVal>;
	static constexpr bool IsPtr = std::is_same_v<A, AsPtr>;
	static constexpr std::size_t N = 3;
	std::optional<W> obj[N];
	int Val(std::size_t o) { const W& c = *obj[o]; return A::Val(c.Get()); }
	void Emit(Ev& e, std::size_t o, int p = -1)
	{
		e.i("o", ll(o) + 1).i("s", Val(o));
		if (p >= 0)
			e.i("p", p + 1).i("s2", Val(std::size_t(p)));
		e.emit();
	}
	void Step(const Op& op)
	{
		SetDuring(Describe(op));
		const std::string& n = op.name;
		std::size_t o = Mod(op.get("o"), N), p = Mod(op.get("p"), N);
		int v = int(Mod(op.get("v"), 200));
		ll how = op.get("how");
		if (n == "Begin")
		{
			for (auto& x : obj) { x.reset(); x.emplace(); }
			Ev e("Begin");
			e.s("kind", A::kind).i("zero", A::zero);
			e.emit();
			return;
		}
		if (n == "Default")
		{
			obj[o].reset();
			obj[o].emplace();
			Ev e("Default");
			return Emit(e, o);
		}
		if (n == "New")
		{
			Ev e("New");
			switch (Mod(how, 6))
			{
				case 0: { Raw r = A::Make(v); obj[o].reset(); obj[o].emplace(r); e.i("arg", A::Val(r)); break; }
				case 1: { Raw r = A::Make(v); *obj[o] = r; e.i("arg", A::Val(r)); break; }
				case 2: { const Raw r = A::Make(v); *obj[o] = r; e.i("arg", A::Val(r)); break; }
				case 3: { *obj[o] = A::Make(v); break; }
				case 4: { obj[o].reset(); obj[o].emplace(A::Make(v)); break; }
				default:
					if constexpr (IsPtr) *obj[o] = A::Make(v);
					else
					{
						W& w = *obj[o];
						if constexpr (IsVal) w.Get().value = v; else w.Get() = Raw(v);
					}
			}
			e.i("v", v).i("how", how);
			return Emit(e, o);
		}
		if (n == "Copy")
		{
			switch (Mod(how, 4))
			{
				case 0: *obj[o] = static_cast<const W&>(*obj[p]); break;
				case 1: *obj[o] = *obj[p]; break; // through a non-const lvalue
				case 2: if (o == p) return; obj[o].reset(); obj[o].emplace(static_cast<const W&>(*obj[p])); break;
				default: if (o == p) return; obj[o].reset(); obj[o].emplace(*obj[p]); break;
			}
			Ev e("Copy");
			e.i("how", how);
			return Emit(e, o, int(p));
		}
		if (n == "Move")
		{
			bool ctor = how & 1;
			if (o == p)
			{
				if (IsVal) return;
				ctor = false;
			}
			Reg().copies = 0;
			if (ctor) { obj[o].reset(); obj[o].emplace(std::move(*obj[p])); }
			else *obj[o] = std::move(*obj[p]);
			Ev e("Move");
			e.b("ctor", ctor).i("copies", Reg().copies);
			return Emit(e, o, int(p));
		}
		if (n == "Take")
		{
			int ret;
			if constexpr (IsPtr) { int* r = std::move(*obj[o]); ret = A::Val(r); }
			else if (how & 1) { Raw r = std::move(*obj[o]).Get(); ret = A::Val(r); }
			else { Raw&& rr = std::move(*obj[o]); Raw r = std::move(rr); ret = A::Val(r); }
			Ev e("Take");
			e.i("ret", ret);
			return Emit(e, o);
		}
		if (n == "Observe")
		{
			Ev e("Observe");
			e.arr("vals", A::All(*obj[o]));
			return Emit(e, o);
		}
	}
	void Run(const std::vector<Op>& s)
	{
		for (auto& x : s)
			Step(x);
	}
};

#endif

static void Run(const std::vector<Op>& s, const std::string& cfg)
{
#if NZV_PART == 1
	if (cfg == "exit_fn") return ExitDrv<Fn>().Run(s);
	if (cfg == "exit_std") return ExitDrv<std::function<void()>>().Run(s);
#elif NZV_PART == 2
	if (cfg == "pimpl_heap") return PimplDrv<TFull, 0>().Run(s);
	if (cfg == "pimpl_heapna") return PimplDrv<NonAssign, 0>().Run(s);
	if (cfg == "pimpl_inline") return PimplDrv<TFull, 32>().Run(s);
	if (cfg == "pimpl_heapthr") return PimplDrv<TThrow, 0>().Run(s);
	if (cfg == "pimpl_heapnathr") return PimplDrv<NonAssignOf<TThrow>, 0>().Run(s);
	if (cfg == "pimpl_heapmove") return PimplDrv<TMove, 0>().Run(s);
	if (cfg == "pimpl_inlinethr") return PimplDrv<TThrow, 48>().Run(s);
	if (cfg == "pimpl_inlinenathr") return PimplDrv<NonAssignOf<TThrow>, 32>().Run(s);
	if (cfg == "pimpl_inlinemove") return PimplDrv<TMove, 32>().Run(s);
	if (cfg == "pimpl_inlinemovethr") return PimplDrv<TMoveThrow, 32>().Run(s);
	if (cfg == "pimpl_inlinealigned") return PimplDrv<TAligned, 128, 64>().Run(s);
	if (cfg == "pimpl_inlinena") return PimplDrv<NonAssign, sizeof(NonAssign)>().Run(s);
#else
	if (cfg == "mov_ptr") return MovDrv<AsPtr>().Run(s);
	if (cfg == "mov_lit") return MovDrv<AsLit>().Run(s);
	if (cfg == "mov_lit8") return MovDrv<AsLit64>().Run(s);
	if (cfg == "mov_val") return MovDrv<AsVal>().Run(s);
#endif
	std::exit(2);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
