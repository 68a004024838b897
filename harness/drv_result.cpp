// Conformance driver of Result.
#include "trk.hpp"
#include <NazaraUtils/Result.hpp>
#include <memory>
#include <optional>
#include <stdexcept>

using namespace nzv;
using TFull = Trk<true, true, true>;
using TMove = Trk<false, true, true>;
using EFull = Trk<true, false, true, 8>;

template<typename T> int Val(const T& t) { return ValueOf(t); }
template<typename T> T Mk(int v) { return T(v); }
template<typename T> void Put(T& t, int v)
{
	if constexpr (std::is_same_v<T, int>) t = v;
	else t.value = v;
}

// types a result can be converted from
// an error of another type, which only gives itself away when it is moved
struct FromE
{
	int v;
	operator EFull() const& { return EFull(v); }
	operator EFull() && { int x = v; v = -7; return EFull(x); }
	operator int() const& { return v; }
	operator int() && { int x = v; v = -7; return x; }
};
struct FromV { int v; operator TFull() const& { return TFull(v); } operator int() const { return v; } };

template<typename V, typename E> struct Drv
{
	using R = Nz::Result<V, E>;
	static constexpr bool Void = std::is_void_v<V>;
	static constexpr bool Same = std::is_same_v<V, E>;
	static constexpr bool CopyV = Void || std::is_copy_constructible_v<std::conditional_t<Void, int, V>>;
	static constexpr std::size_t N = 3;
	std::optional<R> obj[N];

	static std::vector<ll> State(const R& r)
	{
		if (r.IsOk())
		{
			if constexpr (Void) return { 1, 0 };
			else return { 1, Val(r.GetValue()) };
		}
		return { 0, Val(r.GetError()) };
	}
	void Emit(Ev& e, std::size_t o, int p = -1)
	{
		e.i("o", ll(o) + 1).arr("s", State(*obj[o]));
		if (p >= 0)
			e.i("p", p + 1).arr("s2", State(*obj[p]));
		e.emit();
	}

	void New(std::size_t o, int k, int v, ll how)
	{
		Ev e("New");
		ll arg = 0, argv = 0;
		bool haveArg = false;
		R& r = *obj[o];
		if (k == 0)
		{
			switch (Mod(how, 7))
			{
				case 0: r = Nz::Err(Mk<E>(v)); break;
				case 1: { E x(v); r = Nz::Err(x); haveArg = true; arg = Val(x); argv = v; break; }
				case 2: { const E x(v); r = Nz::Err(x); haveArg = true; arg = Val(x); argv = v; break; }
				case 3: r = R(typename R::ErrorTag{}, v); break;
				case 4: { E x(v); r = R(typename R::ErrorTag{}, x); haveArg = true; arg = Val(x); argv = v; break; }
				case 5: { obj[o].reset(); E x(v); obj[o].emplace(Nz::Err(x)); haveArg = true; arg = Val(x); argv = v; break; }
				default:
				{
					// from a result of other types
					if (how & 16)
					{
						// another error type, and the same value type
						Nz::Result<V, FromE> q = Nz::Err(FromE{ v });
						if constexpr (CopyV)
						{
							if ((how & 8) == 0)
							{
								r = R(static_cast<const Nz::Result<V, FromE>&>(q));
								haveArg = true; arg = q.GetError().v; argv = v;
								break;
							}
						}
						r = R(std::move(q));
					}
					else if constexpr (Void)
					{
						Nz::Result<void, E> q = Nz::Err(Mk<E>(v));
						r = R(static_cast<const Nz::Result<void, E>&>(q));
						haveArg = true; arg = Val(q.GetError()); argv = v;
					}
					else
					{
						// E2 convertible to E: E itself
						if constexpr (std::is_same_v<V, int>)
						{
							Nz::Result<short, E> q = Nz::Err(Mk<E>(v));
							if (how & 8) r = R(std::move(q));
							else { r = R(static_cast<const Nz::Result<short, E>&>(q)); haveArg = true; arg = Val(q.GetError()); argv = v; }
						}
						else if constexpr (std::is_same_v<V, TFull>)
						{
							Nz::Result<FromV, E> q = Nz::Err(Mk<E>(v));
							if (how & 8) r = R(std::move(q));
							else { r = R(static_cast<const Nz::Result<FromV, E>&>(q)); haveArg = true; arg = Val(q.GetError()); argv = v; }
						}
						else
							r = Nz::Err(Mk<E>(v));
					}
				}
			}
		}
		else if constexpr (Void)
		{
			v = 0;
			switch (Mod(how, 4))
			{
				case 0: r = Nz::Ok(); break;
				case 1: r = R(typename R::ValueTag{}); break;
				case 2:
				{
					Nz::Result<void, FromE> q = Nz::Ok();
					if (how & 8) r = R(std::move(q)); else r = R(static_cast<const Nz::Result<void, FromE>&>(q));
					break;
				}
				default: { obj[o].reset(); obj[o].emplace(Nz::Ok()); }
			}
		}
		else
		{
			switch (Mod(how, 9))
			{
				case 0: r = Nz::Ok(Mk<V>(v)); break;
				case 1: if constexpr (CopyV) { V x(v); r = Nz::Ok(x); haveArg = true; arg = Val(x); argv = v; } else r = Nz::Ok(Mk<V>(v)); break;
				case 2: if constexpr (CopyV) { const V x(v); r = Nz::Ok(x); haveArg = true; arg = Val(x); argv = v; } else r = Nz::Ok(Mk<V>(v)); break;
				case 3: r = R(typename R::ValueTag{}, v); break;
				case 4: if constexpr (!Same && CopyV) { V x(v); obj[o].reset(); obj[o].emplace(x); haveArg = true; arg = Val(x); argv = v; } else r = R(typename R::ValueTag{}, v); break;
				case 5: if constexpr (!Same && CopyV) { const V x(v); obj[o].reset(); obj[o].emplace(x); haveArg = true; arg = Val(x); argv = v; } else r = R(typename R::ValueTag{}, v); break;
				case 6: if constexpr (!Same) { r = Mk<V>(v); } else r = R(typename R::ValueTag{}, v); break;
				case 7:
				{
					if (how & 16)
					{
						Nz::Result<V, FromE> q(typename Nz::Result<V, FromE>::ValueTag{}, v);
						if constexpr (CopyV)
						{
							if ((how & 8) == 0)
							{
								r = R(static_cast<const Nz::Result<V, FromE>&>(q));
								haveArg = true; arg = Val(q.GetValue()); argv = v;
								break;
							}
						}
						r = R(std::move(q));
					}
					else if constexpr (std::is_same_v<V, int>)
					{
						v = v % 30000;
						Nz::Result<short, E> q = Nz::Ok(short(v));
						if (how & 8) r = R(std::move(q)); else { r = R(static_cast<const Nz::Result<short, E>&>(q)); haveArg = true; arg = q.GetValue(); argv = v; }
					}
					else if constexpr (std::is_same_v<V, TFull>)
					{
						Nz::Result<FromV, E> q = Nz::Ok(FromV{ v });
						if (how & 8) r = R(std::move(q)); else { r = R(static_cast<const Nz::Result<FromV, E>&>(q)); haveArg = true; arg = q.GetValue().v; argv = v; }
					}
					else
						r = Nz::Ok(Mk<V>(v));
					break;
				}
				default:
					// default: a default value
					v = 0;
					obj[o].reset();
					obj[o].emplace();
			}
		}
		e.i("k", k).i("v", v).i("how", how);
		if (haveArg)
			e.i("arg", arg).i("argv", argv);
		Emit(e, o);
	}

	static Nz::Result<int, E> TryV(R& r, int& got, bool& passed, bool rv)
	{
		if constexpr (Void)
		{
			if (rv) NAZARA_TRY(std::move(r)); else NAZARA_TRY(r);
			got = 0;
		}
		else
		{
			if (rv)
			{
				NAZARA_TRY_VALUE(V x, std::move(r));
				got = Val(x);
			}
			else if constexpr (CopyV)
			{
				NAZARA_TRY_VALUE(auto x, r);
				got = Val(x);
				NAZARA_TRY(r);
			}
		}
		passed = true;
		return Nz::Result<int, E>(typename Nz::Result<int, E>::ValueTag{}, 1);
	}

	void Step(const Op& op)
	{
		SetDuring(Describe(op));
		const std::string& n = op.name;
		std::size_t o = Mod(op.get("o"), N), p = Mod(op.get("p"), N);
		int v = int(Mod(op.get("v"), 800));
		ll how = op.get("how");
		if (n == "Begin")
		{
			for (auto& x : obj)
			{
				x.reset();
				if constexpr (Void) x.emplace(Nz::Ok());
				else x.emplace(typename R::ValueTag{}, 0);
			}
			Ev("Begin").emit();
			return;
		}
		R& r = *obj[o];
		const R& c = r;
		if (n == "New")
			return New(o, int(op.get("k")), v, how);
		if (n == "Copy")
		{
			if constexpr (CopyV)
			{
				if ((how & 1) && o != p) { obj[o].reset(); obj[o].emplace(static_cast<const R&>(*obj[p])); }
				else r = static_cast<const R&>(*obj[p]);
				Ev e("Copy");
				return Emit(e, o, int(p));
			}
			return;
		}
		if (n == "Move")
		{
			if (o == p) return;
			Reg().copies = 0;
			if (how & 1) { obj[o].reset(); obj[o].emplace(std::move(*obj[p])); }
			else r = std::move(*obj[p]);
			Ev e("Move");
			e.i("copies", Reg().copies);
			return Emit(e, o, int(p));
		}
		if (n == "Mutate")
		{
			if (r.IsOk())
			{
				if constexpr (Void) return;
				else
				{
					if (how % 3 == 0) Put(r.GetValue(), v);
					else if (how % 3 == 1) Put(*r, v);
					else Put(*r.operator->(), v);
				}
			}
			else Put(r.GetError(), v);
			Ev e("Mutate");
			e.i("v", v);
			return Emit(e, o);
		}
		if (n == "Take")
		{
			int ret = 0;
			Reg().copies = 0;
			if (r.IsOk())
			{
				if constexpr (Void) return;
				else
				{
					if (how & 1) { V x = std::move(r).GetValue(); ret = Val(x); }
					else { V x = *std::move(r); ret = Val(x); }
				}
			}
			else { E x = std::move(r).GetError(); ret = Val(x); }
			Ev e("Take");
			e.i("ret", ret).i("copies", Reg().copies);
			return Emit(e, o);
		}
		if (n == "Map")
		{
			int calls = 0, arg = 0;
			Reg().copies = 0;
			bool rv = how & 1, vd = how & 2;
			ll rk = 0, rx = 0;
			auto see = [&](const auto& m)
			{
				rk = m.IsOk();
				if (m.IsOk())
				{
					if constexpr (!std::is_void_v<std::decay_t<decltype(vd)>>) {}
				}
				else
					rx = Val(m.GetError());
			};
			auto body = [&](int x) { ++calls; arg = x; return x + 1000; };
			if constexpr (Void)
			{
				auto f = [&] { return body(0); };
				auto g = [&] { body(0); };
				if (vd) { auto m = rv ? std::move(r).Map(g) : c.Map(g); see(m); }
				else { auto m = rv ? std::move(r).Map(f) : c.Map(f); see(m); if (m.IsOk()) rx = m.GetValue(); }
			}
			else
			{
				auto f = [&](const V& x) { return body(Val(x)); };
				auto g = [&](const V& x) { body(Val(x)); };
				auto fr = [&](V&& x) { V y(std::move(x)); return body(Val(y)); };
				auto gr = [&](V x) { body(Val(x)); };
				if (rv)
				{
					if (vd) { auto m = std::move(r).Map(gr); see(m); }
					else { auto m = std::move(r).Map(fr); see(m); if (m.IsOk()) rx = m.GetValue(); }
				}
				else
				{
					if (vd) { auto m = c.Map(g); see(m); }
					else { auto m = c.Map(f); see(m); if (m.IsOk()) rx = m.GetValue(); }
				}
			}
			Ev e("Map");
			e.b("void", vd).b("rv", rv).i("copies", Reg().copies).i("calls", calls).i("arg", arg).i("rk", rk).i("rx", rx);
			return Emit(e, o);
		}
		if (n == "Fault")
		{
			// the first copy of a payload throws, or the continuation does
			constexpr bool canV = !Void && !std::is_same_v<V, int>, canE = !std::is_same_v<E, int>;
			how = Mod(how, 6);
			if constexpr (!CopyV)
				if (how == 3 || how == 4 || how == 5) return;
			if constexpr (Void)
				if (how == 4) return;
			int calls = 0;
			bool threw = false;
			auto arm = [] { Reg().fired = false; Reg().countdown = 1; };
			try
			{
				if (how == 0)
				{
					arm();
					if constexpr (Void) { auto f = [&calls]() noexcept { ++calls; return 1; }; auto m = c.Map(f); (void) m; }
					else { auto f = [&calls](const V&) noexcept { ++calls; return 1; }; auto m = c.Map(f); (void) m; }
				}
				else if (how == 1)
				{
					if constexpr (Void) { auto f = [&calls]() -> int { ++calls; throw Injected{}; }; auto m = c.Map(f); (void) m; }
					else { auto f = [&calls](const V&) -> int { ++calls; throw Injected{}; }; auto m = c.Map(f); (void) m; }
				}
				else if (how == 2)
				{
					// the value is passed, not taken: it is the continuation that would take it
					if constexpr (Void) { auto f = [&calls]() { ++calls; throw Injected{}; }; auto m = std::move(r).Map(f); (void) m; }
					else { auto f = [&calls](V&&) { ++calls; throw Injected{}; }; auto m = std::move(r).Map(f); (void) m; }
				}
				else if constexpr (CopyV)
				{
					if (how == 3) { arm(); R t(c); (void) t; }
					else if (how == 5) { arm(); r = static_cast<const R&>(*obj[p]); }
					else if constexpr (!Void) { V d(v); arm(); V x = c.GetValueOr(std::move(d)); (void) x; }
				}
			}
			catch (const Injected&) { threw = true; }
			Reg().countdown = -1;
			Ev e("Fault");
			e.i("how", how).i("calls", calls).b("threw", threw).b("canv", canV).b("cane", canE);
			return Emit(e, o, int(p));
		}
		if (n == "Or")
		{
			if constexpr (!Void)
			{
				bool rv = how & 1, lv = how & 2;
				if constexpr (!CopyV) { rv = true; lv = false; }
				V d(v);
				int ret;
				if constexpr (CopyV)
				{
					if (rv) { V x = lv ? std::move(r).GetValueOr(d) : std::move(r).GetValueOr(std::move(d)); ret = Val(x); }
					else { V x = lv ? c.GetValueOr(d) : c.GetValueOr(std::move(d)); ret = Val(x); }
				}
				else { V x = std::move(r).GetValueOr(std::move(d)); ret = Val(x); }
				Ev e("Or");
				e.i("v", v).i("ret", ret).i("arg", Val(d)).b("rv", rv).b("lv", lv);
				return Emit(e, o);
			}
			return;
		}
		if (n == "Try")
		{
			if constexpr (CopyV)
			{
				// on a copy: the macro takes its result by value
				int got = 0;
				bool passed = false;
				R copy = r;
				auto t = TryV(copy, got, passed, how & 1);
				Ev e("Try");
				e.b("passed", passed).i("got", got).b("rk", t.IsOk()).i("rx", t.IsOk() ? 0 : Val(t.GetError()));
				return Emit(e, o);
			}
			return;
		}
		if (n == "Observe")
		{
			Ev e("Observe");
			e.b("ok", c.IsOk()).b("err", c.IsErr()).b("bool", static_cast<bool>(c));
			std::vector<int> vals, errs;
			bool vthrow = false, ethrow = false, expect = false, msg = true;
			if (c.IsOk())
			{
				if constexpr (!Void)
					vals = { Val(r.GetValue()), Val(c.GetValue()), Val(*r), Val(*c), Val(*r.operator->()), Val(*c.operator->()) };
			}
			else
				errs = { Val(r.GetError()), Val(c.GetError()) };
			if constexpr (!Void)
			{
				int t = 0;
				try { (void) Val(r.GetValue()); } catch (const std::runtime_error&) { ++t; }
				try { (void) Val(c.GetValue()); } catch (const std::runtime_error&) { ++t; }
				try { (void) Val(*c); } catch (const std::runtime_error&) { ++t; }
				vthrow = t == 3;
				if (t != 0 && t != 3) msg = false;
			}
			{
				int t = 0;
				try { (void) Val(r.GetError()); } catch (const std::runtime_error&) { ++t; }
				try { (void) Val(c.GetError()); } catch (const std::runtime_error&) { ++t; }
				ethrow = t == 2;
				if (t == 1) msg = false;
			}
			try { c.Expect("that text"); } catch (const std::runtime_error& x) { expect = true; msg = msg && std::string(x.what()) == "that text"; }
			try { c.Expect(""); if (expect) msg = false; } catch (const std::runtime_error& x) { msg = msg && expect && std::string(x.what()).empty(); }
			try { c.Expect(std::string()); if (expect) msg = false; } catch (const std::runtime_error& x) { msg = msg && expect && std::string(x.what()).empty(); }
			bool expect2 = false;
			try { c.Expect(std::string("other text")); } catch (const std::runtime_error& x) { expect2 = true; msg = msg && std::string(x.what()) == "other text"; }
			if (expect != expect2) msg = false;
			e.arr("vals", vals).arr("errs", errs).b("vthrow", vthrow).b("ethrow", ethrow).b("expect", expect).b("msg", msg).b("novalue", Void);
			return Emit(e, o);
		}
	}
	void Run(const std::vector<Op>& s)
	{
		for (auto& x : s)
			Step(x);
		for (auto& x : obj)
			x.reset();
	}
};

static void Run(const std::vector<Op>& s, const std::string& cfg)
{
	if (cfg == "full") return Drv<TFull, EFull>().Run(s);
	if (cfg == "int") return Drv<int, int>().Run(s);
	if (cfg == "void") return Drv<void, EFull>().Run(s);
	if (cfg == "move") return Drv<TMove, EFull>().Run(s);
	if (cfg == "voidi") return Drv<void, int>().Run(s);
	if (cfg == "fulli") return Drv<TFull, int>().Run(s);
	if (cfg == "inte") return Drv<int, EFull>().Run(s);
	std::exit(2);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
