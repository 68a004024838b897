// Conformance driver of Signal, Connection and ConnectionGuard.
// A callback executes the following script lines until "Ret" or "Throw": the script drives every
// interleaving of user actions with the emission.
#include "nzv.hpp"
#include <NazaraUtils/Signal.hpp>
#include <memory>
#include <optional>
#include <string>

using namespace nzv;

struct Boom {};
static std::string Text(int v) { return "payload with more than fifteen characters " + std::to_string(v); }
static int TextValue(const std::string& s)
{
	static const std::string p = "payload with more than fifteen characters ";
	if (s.compare(0, p.size(), p) != 0 || s.size() == p.size())
		return -1;
	return std::atoi(s.c_str() + p.size());
}

struct Host
{
	virtual void Called(int id, int v, bool ref, const bool* alive) = 0;
	virtual int Current() = 0;
	virtual int* Var() = 0;
	virtual ~Host() = default;
};

constexpr unsigned Magic = 0xC0FFEE42u;

// what is captured by a callback; shows whether it still exists
struct Capture
{
	Host* host;
	int id;
	unsigned magic = Magic;
	std::string tag;
	Capture(Host* h, int i) : host(h), id(i), tag(Text(i)) {}
	Capture(const Capture&) = default;
	~Capture() { magic = 0; host = nullptr; tag = "dead"; }
	bool Ok() const { return magic == Magic && TextValue(tag) == id; }
};

// three signatures
struct SigSI
{
	using Sig = Nz::Signal<std::string, int&>;
	static constexpr bool args = true;
	struct Fn : Capture
	{
		using Capture::Capture;
		// takes its copy of the text away
		void operator()(std::string s, int& r) const
		{
			Host* h = host;
			std::string mine = std::move(s);
			bool ok = Ok();
			h->Called(id, TextValue(mine), &r == h->Var() && ok, &ok);
			ok = Ok() && TextValue(mine) >= 0;
			if (!ok) Die("callback destroyed during its call");
		}
	};
	struct Obj
	{
		Host* host; int id;
		const Obj* self = this; // a copy of the object is not the object
		void M(std::string s, int& r) { std::string mine = std::move(s); bool ok = self == this; host->Called(id, TextValue(mine), &r == host->Var(), &ok); }
		void C(std::string s, int& r) const { std::string mine = std::move(s); bool ok = self == this; host->Called(id, TextValue(mine), &r == host->Var(), &ok); }
	};
	static void Emit(const Sig& s, int v, int& r) { s(Text(v), r); }
};
struct SigC
{
	using Sig = Nz::Signal<const std::string&>;
	static inline thread_local const std::string* given = nullptr;
	struct Fn : Capture
	{
		using Capture::Capture;
		void operator()(const std::string& s) const
		{
			Host* h = host;
			bool ok = Ok();
			h->Called(id, TextValue(s), &s == given && ok, &ok);
			if (!Ok()) Die("callback destroyed during its call");
		}
	};
	struct Obj
	{
		Host* host; int id;
		const Obj* self = this; // a copy of the object is not the object
		void M(const std::string& s) { bool ok = self == this; host->Called(id, TextValue(s), &s == given, &ok); }
		void C(const std::string& s) const { bool ok = self == this; host->Called(id, TextValue(s), &s == given, &ok); }
	};
	static void Emit(const Sig& s, int v, int&)
	{
		std::string t = Text(v);
		const std::string* old = given;
		given = &t;
		struct R { const std::string* o; ~R() { given = o; } } r{ old };
		s(t);
	}
};
struct SigN
{
	using Sig = Nz::Signal<>;
	struct Fn : Capture
	{
		using Capture::Capture;
		void operator()() const
		{
			Host* h = host;
			bool ok = Ok();
			h->Called(id, h->Current(), ok, &ok);
			if (!Ok()) Die("callback destroyed during its call");
		}
	};
	struct Obj
	{
		Host* host; int id;
		const Obj* self = this; // a copy of the object is not the object
		void M() { bool ok = self == this; host->Called(id, host->Current(), true, &ok); }
		void C() const { bool ok = self == this; host->Called(id, host->Current(), true, &ok); }
	};
	static void Emit(const Sig& s, int, int&) { s(); }
};

template<typename S> struct Drv : Host
{
	using Sig = typename S::Sig;
	using Con = typename Sig::Connection;
	using Guard = typename Sig::ConnectionGuard;
	static constexpr std::size_t NS = 3, NH = 5, NG = 3;

	std::optional<Sig> sig[NS];
	std::optional<Con> hnd[NH];
	std::optional<Guard> grd[NG];
	int hid[NH] = {}, gid[NG] = {};
	int nextId = 1;
	long calls = 0;
	std::vector<std::unique_ptr<typename S::Obj>> objs;
	struct Em { std::size_t s; int v; int var; };
	std::vector<std::unique_ptr<Em>> em;
	const std::vector<Op>* script = nullptr;
	std::size_t pos = 0;

	int Current() override { return em.empty() ? -1 : em.back()->v; }
	int* Var() override { return em.empty() ? nullptr : &em.back()->var; }

	void Emit(Ev& e)
	{
		std::vector<int> hc, gc;
		for (auto& h : hnd) hc.push_back(h->IsConnected());
		for (auto& g : grd)
		{
			const Guard& cg = *g;
			hc.size();
			gc.push_back(cg.IsConnected());
		}
		e.arr("hc", hc).arr("gc", gc);
		e.emit();
	}

	void Called(int id, int v, bool ref, const bool* ok) override
	{
		if (++calls > 20000)
			Die("runaway emission");
		Em* mine = em.empty() ? nullptr : em.back().get();
		{
			Ev e("Call");
			e.i("id", id).i("v", v).b("ref", ref).b("ok", *ok && mine);
			Emit(e);
		}
		// the callback's program
		const char* end = "Return";
		while (pos < script->size())
		{
			const Op& op = (*script)[pos];
			if (op.name == "Begin")
				break;
			++pos;
			if (op.name == "Ret")
				break;
			if (op.name == "Throw")
			{
				end = "Throw";
				break;
			}
			Step(op);
		}
		Ev e(end);
		e.i("id", id).b("ok", *ok && !em.empty() && em.back().get() == mine);
		Emit(e);
		if (*end == 'T')
			throw Boom{};
	}

	bool Emitting(std::size_t s)
	{
		for (auto& x : em)
			if (x->s == s)
				return true;
		return false;
	}

	// connects in one of the ways the API offers; f receives the arguments of Signal::Connect
	template<typename F> void Connecting(ll how, int id, F f)
	{
		typename S::Fn fn(this, id);
		switch (Mod(how, 8))
		{
			case 0: { const typename Sig::Callback c = fn; f(c); break; }
			case 1: { typename Sig::Callback c = fn; f(std::move(c)); break; }
			case 2: f(typename S::Fn(this, id)); break;
			case 3: f(fn); break;
			default:
			{
				objs.push_back(std::make_unique<typename S::Obj>());
				typename S::Obj* o = objs.back().get();
				o->host = this;
				o->id = id;
				const typename S::Obj* c = o;
				switch (Mod(how, 8))
				{
					case 4: f(*o, &S::Obj::M); break;
					case 5: f(o, &S::Obj::M); break;
					case 6: f(*c, &S::Obj::C); break;
					default: f(c, &S::Obj::C); break;
				}
			}
		}
	}

	void Step(const Op& op)
	{
		SetDuring(Describe(op));
		const std::string& n = op.name;
		std::size_t s = Mod(op.get("s"), NS), p = Mod(op.get("p"), NS), h = Mod(op.get("h"), NH), k = Mod(op.get("k"), NH);
		std::size_t g = Mod(op.get("g"), NG), gk = Mod(op.get("k"), NG);
		ll how = op.get("how");
		auto ev = [&](const char* name) { return Ev(name); };
		if (n == "HConnect")
		{
			int id = nextId++;
			Connecting(how, id, [&](auto&&... a)
			{
				if ((how / 8) & 1)
					hnd[h]->Connect(*sig[s], std::forward<decltype(a)>(a)...);
				else
					*hnd[h] = sig[s]->Connect(std::forward<decltype(a)>(a)...);
			});
			hid[h] = id;
			Ev e = ev("HConnect");
			e.i("s", ll(s) + 1).i("h", ll(h) + 1).i("id", id).i("how", how);
			return Emit(e);
		}
		if (n == "GConnect")
		{
			int id = nextId++;
			Connecting(how, id, [&](auto&&... a)
			{
				if ((how / 8) & 1)
					*grd[g] = sig[s]->Connect(std::forward<decltype(a)>(a)...);
				else
					grd[g]->Connect(*sig[s], std::forward<decltype(a)>(a)...);
			});
			gid[g] = id;
			Ev e = ev("GConnect");
			e.i("s", ll(s) + 1).i("g", ll(g) + 1).i("id", id).i("how", how);
			return Emit(e);
		}
		if (n == "HDisc" || n == "GDisc")
		{
			Ev e = ev(n.c_str());
			if (n == "HDisc") { hnd[h]->Disconnect(); e.i("h", ll(h) + 1); }
			else { if (how & 1) grd[g]->GetConnection().Disconnect(); else grd[g]->Disconnect(); e.i("g", ll(g) + 1); }
			return Emit(e);
		}
		if (n == "HCopy")
		{
			if ((how & 1) && h != k) { hnd[h].reset(); hnd[h].emplace(*hnd[k]); }
			else *hnd[h] = *hnd[k];
			hid[h] = hid[k];
			Ev e = ev("HCopy");
			e.i("h", ll(h) + 1).i("k", ll(k) + 1);
			return Emit(e);
		}
		if (n == "HMove")
		{
			if (h == k) return;
			if (how & 1) { hnd[h].reset(); hnd[h].emplace(std::move(*hnd[k])); }
			else *hnd[h] = std::move(*hnd[k]);
			hid[h] = hid[k];
			hid[k] = 0;
			Ev e = ev("HMove");
			e.i("h", ll(h) + 1).i("k", ll(k) + 1);
			return Emit(e);
		}
		if (n == "HFromG")
		{
			*hnd[h] = grd[g]->GetConnection();
			hid[h] = gid[g];
			Ev e = ev("HFromG");
			e.i("h", ll(h) + 1).i("g", ll(g) + 1);
			return Emit(e);
		}
		if (n == "GFromH")
		{
			if (hid[h] != 0 && hid[h] == gid[g]) return;
			bool mv = how & 1;
			if (how & 2)
			{
				grd[g].reset();
				if (mv) grd[g].emplace(std::move(*hnd[h]));
				else { const Con& c = *hnd[h]; grd[g].emplace(c); }
			}
			else if (mv) *grd[g] = std::move(*hnd[h]);
			else { const Con& c = *hnd[h]; *grd[g] = c; }
			gid[g] = hid[h];
			if (mv) hid[h] = 0;
			Ev e = ev("GFromH");
			e.i("g", ll(g) + 1).i("h", ll(h) + 1).b("how", mv);
			return Emit(e);
		}
		if (n == "GMove")
		{
			if (g == gk)
			{
				// a guard moved into itself keeps its slot
				Guard& same = *grd[g];
				*grd[g] = std::move(same);
				Ev e = ev("GSelf");
				e.i("g", ll(g) + 1);
				return Emit(e);
			}
			if (gid[g] != 0 && gid[g] == gid[gk]) return;
			if (how & 1) { grd[g].reset(); grd[g].emplace(std::move(*grd[gk])); }
			else *grd[g] = std::move(*grd[gk]);
			gid[g] = gid[gk];
			gid[gk] = 0;
			Ev e = ev("GMove");
			e.i("g", ll(g) + 1).i("k", ll(gk) + 1);
			return Emit(e);
		}
		if (n == "GGone")
		{
			grd[g].reset();
			grd[g].emplace();
			gid[g] = 0;
			Ev e = ev("GGone");
			e.i("g", ll(g) + 1);
			return Emit(e);
		}
		if (n == "SClear")
		{
			sig[s]->Clear();
			Ev e = ev("SClear");
			e.i("s", ll(s) + 1);
			return Emit(e);
		}
		if (n == "SGone")
		{
			if (Emitting(s)) return;
			sig[s].reset();
			if ((how & 1) && p != s) { const Sig& c = *sig[p]; sig[s].emplace(c); }
			else sig[s].emplace();
			Ev e = ev("SGone");
			e.i("s", ll(s) + 1);
			return Emit(e);
		}
		if (n == "SCopy")
		{
			const Sig& c = *sig[p];
			*sig[s] = c;
			Ev e = ev("SCopy");
			e.i("s", ll(s) + 1).i("p", ll(p) + 1);
			return Emit(e);
		}
		if (n == "SMove")
		{
			if (Emitting(s) || Emitting(p)) return;
			if (s == p)
			{
				// a signal moved into itself keeps its slots
				Sig& same = *sig[s];
				*sig[s] = std::move(same);
			}
			else if (how & 1) { sig[s].reset(); sig[s].emplace(std::move(*sig[p])); }
			else *sig[s] = std::move(*sig[p]);
			Ev e = ev("SMove");
			e.i("s", ll(s) + 1).i("p", ll(p) + 1).i("how", how);
			return Emit(e);
		}
		if (n == "Emit")
		{
			if (Emitting(s)) return;
			int v = int(Mod(op.get("v"), 100000));
			em.push_back(std::make_unique<Em>(Em{ s, v, 0 }));
			{
				Ev e = ev("Emit");
				e.i("s", ll(s) + 1).i("v", v);
				Emit(e);
			}
			bool threw = false;
			try { S::Emit(*sig[s], v, em.back()->var); }
			catch (const Boom&) { threw = true; }
			Ev e = ev("EmitEnd");
			e.b("threw", threw);
			em.pop_back();
			return Emit(e);
		}
		if (n == "Observe")
		{
			Ev e = ev("Observe");
			return Emit(e);
		}
	}

	void Begin()
	{
		SetDuring("Begin");
		// destruction order of what the previous scenario left varies
		if (nextId % 2)
			for (auto& x : sig) x.reset();
		for (auto& x : hnd) x.reset();
		for (auto& x : grd) x.reset();
		for (auto& x : sig) x.reset();
		for (auto& x : sig) x.emplace();
		for (auto& x : hnd) x.emplace();
		for (auto& x : grd) x.emplace();
		for (auto& x : hid) x = 0;
		for (auto& x : gid) x = 0;
		nextId = 1;
		calls = 0;
		objs.clear();
		Ev("Begin").emit();
	}

	void Run(const std::vector<Op>& sc)
	{
		script = &sc;
		while (pos < sc.size())
		{
			const Op& op = sc[pos++];
			if (op.name == "Begin")
				Begin();
			else
				Step(op);
		}
		for (auto& x : sig) x.reset();
		for (auto& x : grd) x.reset();
	}
};

static void Run(const std::vector<Op>& s, const std::string& cfg)
{
	if (cfg == "si") { auto d = std::make_unique<Drv<SigSI>>(); return d->Run(s); }
	if (cfg == "cref") { auto d = std::make_unique<Drv<SigC>>(); return d->Run(s); }
	if (cfg == "none") { auto d = std::make_unique<Drv<SigN>>(); return d->Run(s); }
	std::exit(2);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
