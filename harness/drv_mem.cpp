// Fields by offset, map entries, owners, raw storage, bit casts, counts.
#include "nzv.hpp"
#include "trap.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/OffsetOf.hpp>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <array>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>

using namespace nzv;

// ---- structures
struct Plain { char a; int b; short c; double d; long long e; float f; };
struct First { int a; char pad; };
struct Second { short b; int c; };
struct Joined : First, Second { char d; double e; unsigned short f; };
struct Nested { char x; int y; };
struct Arrays { char a; int arr[5]; Nested n; short last; };
struct Poly { virtual ~Poly() = default; char a; alignas(32) int b; short c; };
struct Poly2 : First, Poly { long long d; virtual void F() {} float e; };
struct Tpl { template<int N> struct In { signed char a; unsigned char b; unsigned long long c; unsigned short d; bool pad; float e; double f; }; };
using Inner = Tpl::In<3>;
// offsets that do not fit 8, 16, 24, 31 or 32 bits
struct Huge { char a; char pad0[300]; int b; char pad1[70000]; short c; char pad2[17 << 20]; long long d; char pad3[std::size_t(5) << 29]; float e; char pad4[std::size_t(2) << 30]; unsigned short f; };

static std::vector<int> Parts(std::size_t n) { return { int(n >> 48), int((n >> 24) & 0xFFFFFF), int(n & 0xFFFFFF) }; }

struct FieldOf
{
	std::size_t off;                                    // as told
	std::size_t (*real)(const void*);                   // as it is
	int (*get)(const void*);                            // by name
	void (*set)(void*, int);
	int (*read)(void*, std::size_t, int, bool&);        // by offset
	void (*write)(void*, std::size_t, int, int);
};

template<typename S, typename T, typename P> static FieldOf Make(std::size_t off, P)
{
	FieldOf f;
	f.off = off;
	f.real = [](const void* p) { return std::size_t(reinterpret_cast<const char*>(&P::Ref(*static_cast<S*>(const_cast<void*>(p)))) - static_cast<const char*>(p)); };
	f.get = [](const void* p) { return int(P::Ref(*static_cast<S*>(const_cast<void*>(p)))); };
	f.set = [](void* p, int v) { P::Ref(*static_cast<S*>(p)) = T(v); };
	f.read = [](void* p, std::size_t o, int how, bool& same)
	{
		const void* at = &P::Ref(*static_cast<S*>(p));
		const void* cp = p;
		auto ref = [&](auto& r) { same = (static_cast<const void*>(&r) == at); return int(r); };
		auto ptr = [&](auto* r) { same = (static_cast<const void*>(r) == at); return int(*r); };
		switch (how)
		{
			case 0: { T& r = Nz::AccessByOffset<T&>(p, o); return ref(r); }
			case 1: { const T& r = Nz::AccessByOffset<const T&>(cp, o); return ref(r); }
			case 2: { const T* r = Nz::AccessByOffset<const T*>(cp, o); return ptr(r); }
			case 3: { T* r = Nz::AccessByOffset<T*>(p, o); return ptr(r); }
			case 4: { const T& r = Nz::AccessByOffset<const T&>(p, o); return ref(r); }
			default: { const T* r = Nz::AccessByOffset<const T*>(p, o); return ptr(r); }
		}
	};
	f.write = [](void* p, std::size_t o, int v, int how)
	{
		switch (how)
		{
			case 0: Nz::AccessByOffset<T&>(p, o) = T(v); break;
			case 1: *Nz::AccessByOffset<T*>(p, o) = T(v); break;
			default: { T* t = Nz::AccessByOffset<T*>(static_cast<void*>(static_cast<char*>(p) + 1), o - 1); *t = T(v); break; }
		}
	};
	return f;
}
#define FIELD2(S, T, member, extra, offset) [] { struct P { static T& Ref(S& s) { return s.member extra; } }; return Make<S, T>(offset, P{}); }()
#define FIELD(S, T, member) FIELD2(S, T, member, , NazaraOffsetOf(S, member))
#define COMMA ,

static std::array<FieldOf, 6> Fields(int kind)
{
	switch (kind)
	{
		case 0: return { FIELD(Plain, char, a), FIELD(Plain, int, b), FIELD(Plain, short, c), FIELD(Plain, double, d), FIELD(Plain, long long, e), FIELD(Plain, float, f) };
		case 1: return { FIELD(Joined, int, a), FIELD(Joined, short, b), FIELD(Joined, int, c), FIELD(Joined, char, d), FIELD(Joined, double, e), FIELD(Joined, unsigned short, f) };
		case 2: return { FIELD(Arrays, char, a), FIELD2(Arrays, int, arr, [0], NazaraOffsetOf(Arrays, arr)), FIELD2(Arrays, int, arr, [3], NazaraOffsetOf(Arrays, arr) + 3 * sizeof(int)),
			FIELD2(Arrays, char, n, .x, NazaraOffsetOf(Arrays, n) + NazaraOffsetOf(Nested, x)), FIELD2(Arrays, int, n, .y, NazaraOffsetOf(Arrays, n) + NazaraOffsetOf(Nested, y)), FIELD(Arrays, short, last) };
		case 3: return { FIELD(Poly2, int, First::a), FIELD2(Poly2, char, Poly::a, , NazaraOffsetOf(Poly2, Poly::a)), FIELD(Poly2, int, b), FIELD(Poly2, short, c), FIELD(Poly2, long long, d), FIELD(Poly2, float, e) };
		case 5: return { FIELD(Huge, char, a), FIELD(Huge, int, b), FIELD(Huge, short, c), FIELD(Huge, long long, d), FIELD(Huge, float, e), FIELD(Huge, unsigned short, f) };
		default: return { FIELD(Inner, signed char, a), FIELD(Inner, unsigned char, b), FIELD(Inner, unsigned long long, c), FIELD(Inner, unsigned short, d), FIELD(Inner, float, e), FIELD(Inner, double, f) };
	}
}

struct Block
{
	int kind;
	std::array<FieldOf, 6> fields;
	alignas(64) unsigned char mem[256];
	void* obj;
	void* map = MAP_FAILED;
	Block(const Block&) = delete;
	~Block()
	{
		if (map != MAP_FAILED)
			munmap(map, sizeof(Huge));
	}
	explicit Block(int k) : kind(k), fields(Fields(k))
	{
		std::memset(mem, 0xA5, sizeof(mem));
		void* at = mem + 64;
		switch (kind)
		{
			case 0: obj = ::new (at) Plain{}; break;
			case 1: obj = ::new (at) Joined{}; break;
			case 2: obj = ::new (at) Arrays{}; break;
			case 3: obj = ::new (at) Poly2{}; break;
			case 5:
				map = mmap(nullptr, sizeof(Huge), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (map == MAP_FAILED)
				{
					// no address space for the large structure here
					kind = 0;
					fields = Fields(0);
					obj = ::new (at) Plain{};
					break;
				}
				obj = ::new (map) Huge; // not initialised: its pages are only mapped when touched
				break;
			default: obj = ::new (at) Inner{}; break;
		}
		for (auto& f : fields)
			f.set(obj, 0);
	}
	int Guard() const
	{
		std::size_t n = kind == 0 ? sizeof(Plain) : kind == 1 ? sizeof(Joined) : kind == 2 ? sizeof(Arrays) : kind == 3 ? sizeof(Poly2) : kind == 5 ? 0 : sizeof(Inner);
		int bad = 0;
		for (std::size_t i = 0; i < sizeof(mem); ++i)
			if ((i < 64 || i >= 64 + n) && mem[i] != 0xA5)
				++bad;
		return bad;
	}
	std::vector<int> Values() const
	{
		std::vector<int> v;
		for (auto& f : fields)
			v.push_back(f.get(obj));
		return v;
	}
};

// ---- maps
struct Value
{
	int v = 0;
	Value() = default;
	Value(const Value&) = delete;
	Value& operator=(const Value&) = delete;
};
struct Maps
{
	std::map<int, Value> ints;
	std::unordered_map<std::string, Value> strings;
	std::map<std::string, Value, std::less<>> views;
	int kind = 0;

	static std::string Name(int k) { return "a key that is long enough to be allocated " + std::to_string(k); }
	std::vector<std::vector<int>> All() const
	{
		std::map<int, int> s;
		for (auto& p : ints) s[p.first] = p.second.v;
		for (auto& p : strings) s[std::atoi(p.first.c_str() + 42)] = p.second.v;
		for (auto& p : views) s[std::atoi(p.first.c_str() + 42)] = p.second.v;
		std::vector<std::vector<int>> r;
		for (auto& p : s) r.push_back({ p.first, p.second });
		return r;
	}
	bool Has(int k) const { return kind == 0 ? ints.count(k) : kind == 1 ? strings.count(Name(k)) : views.count(Name(k)); }
	void Set(int k, int v) { (kind == 0 ? ints[k] : kind == 1 ? strings[Name(k)] : views[Name(k)]).v = v; }
	void Erase(int k) { kind == 0 ? ints.erase(k) : kind == 1 ? strings.erase(Name(k)) : views.erase(Name(k)); }
	const Value* Where(int k) const { return kind == 0 ? &ints.find(k)->second : kind == 1 ? &strings.find(Name(k))->second : &views.find(Name(k))->second; }
	template<typename F> void Retrieve(int k, bool konst, F&& f)
	{
		std::string name = Name(k);
		std::string_view view = name;
		if (kind == 0) { if (konst) { const Value& r = Nz::Retrieve(std::as_const(ints), k); f(r); } else { Value& r = Nz::Retrieve(ints, k); f(r); } }
		else if (kind == 1) { if (konst) { const Value& r = Nz::Retrieve(std::as_const(strings), name); f(r); } else { Value& r = Nz::Retrieve(strings, name); f(r); } }
		else { if (konst) { const Value& r = Nz::Retrieve(std::as_const(views), view); f(r); } else { Value& r = Nz::Retrieve(views, view); f(r); } }
	}
};

// ---- owners
static thread_local std::vector<int> dead;
static thread_local int made;
struct Pad { virtual ~Pad() = default; int pad = 5; };
struct Base
{
	int id = ++made;
	int cls;
	explicit Base(int c) : cls(c) {}
	Base(const Base&) = delete;
	virtual ~Base() { dead.push_back(id); }
};
struct Derived : Pad, Base
{
	const Base* self = this;
	explicit Derived(int c = 1) : Base(c) {}
	bool Right() const { return self == this && pad == 5; }
};
struct MoreDerived : Derived { MoreDerived() : Derived(2) {} std::string text = "a text that is long enough to be allocated"; };
struct Other : Pad, Base { Other() : Base(3) {} };

struct Owners
{
	std::unique_ptr<Base> b[2];
	std::unique_ptr<Derived> d[2];
	int Id(int s) const { return s < 2 ? (b[s] ? b[s]->id : 0) : (d[s - 2] ? d[s - 2]->id : 0); }
	int Class(int s) const { return s < 2 ? (b[s] ? b[s]->cls : 0) : (d[s - 2] ? d[s - 2]->cls : 0); }
	bool Right() const { return (!d[0] || d[0]->Right()) && (!d[1] || d[1]->Right()); }
	void New(int s, int c)
	{
		if (s < 2)
			b[s] = c == 0 ? std::make_unique<Base>(0) : c == 1 ? std::unique_ptr<Base>(std::make_unique<Derived>()) : c == 2 ? std::unique_ptr<Base>(std::make_unique<MoreDerived>()) : std::unique_ptr<Base>(std::make_unique<Other>());
		else
			d[s - 2] = c == 1 ? std::make_unique<Derived>() : std::unique_ptr<Derived>(std::make_unique<MoreDerived>());
	}
	void Cast(int s, int t)
	{
		if (s < 2 && t < 2) b[t] = Nz::StaticUniquePointerCast<Base>(std::move(b[s]));
		else if (s < 2) d[t - 2] = Nz::StaticUniquePointerCast<Derived>(std::move(b[s]));
		else if (t < 2) b[t] = Nz::StaticUniquePointerCast<Base>(std::move(d[s - 2]));
		else d[t - 2] = Nz::StaticUniquePointerCast<Derived>(std::move(d[s - 2]));
	}
};

// ---- raw storage
struct Thing
{
	int v;
	std::unique_ptr<int> p;
	static inline thread_local int born = 0, died = 0, copies = 0;
	Thing(int n, std::unique_ptr<int> q, int& seen, const std::string& text) : v(n), p(std::move(q)) { ++born; seen += n; if (text.size() != 40) v = -7; }
	explicit Thing(int&& n) : v(std::exchange(n, -3)) { ++born; }
	Thing(const Thing& t) : v(t.v) { ++copies; }
	~Thing() { ++died; v = -9; }
};

// ---- bits
template<std::size_t N> struct Raw { unsigned char b[N]; };
struct Halves { Nz::UInt16 a, b; };
enum class Long : Nz::UInt64 {};
template<typename To, typename From> static void Bits(std::uint64_t raw, const char* form)
{
	From f;
	std::memcpy(&f, &raw, sizeof(From));
	To t = Nz::BitCast<To>(f);
	std::vector<int> in(sizeof(From)), out(sizeof(To)), after(sizeof(From));
	unsigned char buf[16];
	std::memcpy(buf, &raw, sizeof(From)); for (std::size_t i = 0; i < in.size(); ++i) in[i] = buf[i];
	std::memcpy(buf, &t, sizeof(To)); for (std::size_t i = 0; i < out.size(); ++i) out[i] = buf[i];
	std::memcpy(buf, &f, sizeof(From)); for (std::size_t i = 0; i < after.size(); ++i) after[i] = buf[i];
	Ev("BitCast").s("form", form).arr("in", in).arr("r", out).arr("src", after).emit();
}
static std::vector<int> Digits(std::uint64_t v, std::size_t n)
{
	std::vector<int> d;
	for (std::size_t i = 0; i < n; ++i)
		d.push_back(int((v >> (8 * i)) & 0xFF));
	return d;
}
static void ConstantBits()
{
	constexpr Nz::UInt32 a = Nz::BitCast<Nz::UInt32>(1.5f), b = Nz::BitCast<Nz::UInt32>(-0.0f);
	constexpr Nz::UInt64 c = Nz::BitCast<Nz::UInt64>(-2.5);
	constexpr float d = Nz::BitCast<float>(Nz::UInt32(0x40490FDB));
	Ev("BitCast").s("form", "constant").arr("in", Digits(0x3FC00000u, 4)).arr("r", Digits(a, 4)).arr("src", Digits(0x3FC00000u, 4)).emit();
	Ev("BitCast").s("form", "constant").arr("in", Digits(0x80000000u, 4)).arr("r", Digits(b, 4)).arr("src", Digits(0x80000000u, 4)).emit();
	Ev("BitCast").s("form", "constant").arr("in", Digits(0xC004000000000000u, 8)).arr("r", Digits(c, 8)).arr("src", Digits(0xC004000000000000u, 8)).emit();
	Nz::UInt32 back;
	std::memcpy(&back, &d, 4);
	Ev("BitCast").s("form", "constant").arr("in", Digits(0x40490FDBu, 4)).arr("r", Digits(back, 4)).arr("src", Digits(0x40490FDBu, 4)).emit();
}

// ---- counts
template<typename T> static void Count(const char* form, std::size_t n, const T& c) { Ev("CountOf").s("form", form).sz("n", n).sz("ret", Nz::CountOf(c)).emit(); }
static void Counts(int n)
{
	std::size_t u = std::size_t(n);
	Count("vector", u, std::vector<int>(u));
	Count("bool vector", u, std::vector<bool>(u));
	Count("string", u, std::string(u, 'x'));
	Count("view", u, std::string_view(std::string(u, 'x')));
	std::list<int> l(u);
	Count("list", u, l);
	std::map<int, int> m;
	for (int i = 0; i < n; ++i) m[i * 7] = 0;
	Count("map", u, m);
	Count("array", 4, std::array<int, 4>{});
	Count("empty array", 0, std::array<int, 0>{});
	int a[7] = {}; const double b[3] = {}; std::string c[5]; char d[6] = {}; const char e[] = "four"; int f[2][9] = {};
	constexpr int g[11] = {};
	static_assert(noexcept(Nz::CountOf(a)));
	Ev("CountOf").s("form", "int[7]").i("n", 7).sz("ret", Nz::CountOf(a)).emit();
	Ev("CountOf").s("form", "const double[3]").i("n", 3).sz("ret", Nz::CountOf(b)).emit();
	Ev("CountOf").s("form", "string[5]").i("n", 5).sz("ret", Nz::CountOf(c)).emit();
	Ev("CountOf").s("form", "char[6]").i("n", 6).sz("ret", Nz::CountOf(d)).emit();
	Ev("CountOf").s("form", "const char[5]").i("n", 5).sz("ret", Nz::CountOf(e)).emit();
	Ev("CountOf").s("form", "int[2][9]").i("n", 2).sz("ret", Nz::CountOf(f)).emit();
	constexpr std::size_t k = Nz::CountOf(g);
	Ev("CountOf").s("form", "constant").i("n", 11).sz("ret", k).emit();
}

enum class Small : signed char {};
enum class WideEnum : Nz::Int64 {};
enum Old : unsigned short {};
template<typename E> static void Under(ll v)
{
	using U = std::underlying_type_t<E>;
	auto r = Nz::UnderlyingCast(static_cast<E>(static_cast<U>(v)));
	Ev("Underlying").big("v", static_cast<ll>(static_cast<U>(v))).big("ret", static_cast<ll>(r)).b("type", std::is_same_v<decltype(r), U>).emit();
}

struct World
{
	Block block;
	Maps maps;
	Owners owners;
	struct Cell { alignas(Thing) unsigned char mem[sizeof(Thing)]; Thing* thing = nullptr; };
	Cell cells[3];

	World(int kind, int map) : block(kind) { maps.kind = map; }
	~World()
	{
		for (Cell& c : cells)
			if (c.thing)
				c.thing->~Thing();
	}

	void State(Ev& e)
	{
		std::vector<int> s, c, k;
		for (int i = 0; i < 4; ++i)
		{
			s.push_back(owners.Id(i));
			c.push_back(owners.Class(i));
		}
		for (Cell& x : cells)
			k.push_back(x.thing ? x.thing->v : -1);
		e.arr("fld", block.Values()).i("guard", block.Guard()).arr2("map", maps.All()).arr("slot", s).arr("cls", c).arr("dead", dead).b("right", owners.Right())
			.arr("cell", k).i("alive", Thing::born - Thing::died).i("copies", Thing::copies).emit();
	}

	void Exec(const Op& op)
	{
		Ev e(op.name);
		int f = int(Mod(op.get("f"), 6)), v = int(Mod(op.get("v"), 100)), how = int(Mod(op.get("how"), 60)), k = int(Mod(op.get("k"), 6));
		int s = int(Mod(op.get("s"), 4)), t = int(Mod(op.get("t"), 4)), c = int(Mod(op.get("c"), 4));
		if (op.name == "ReadField")
		{
			bool same = false;
			const FieldOf& fd = block.fields[std::size_t(f)];
			int r = fd.read(block.obj, fd.off, how % 6, same);
			e.i("f", f).i("ret", r).b("same", same).arr("off", Parts(fd.off)).arr("real", Parts(fd.real(block.obj)));
		}
		else if (op.name == "WriteField")
		{
			const FieldOf& fd = block.fields[std::size_t(f)];
			if (how % 4 == 3) fd.set(block.obj, v);
			else fd.write(block.obj, fd.off, v, (fd.off == 0) ? how % 2 : how % 3);
			e.i("f", f).i("v", v).arr("off", Parts(fd.off)).arr("real", Parts(fd.real(block.obj)));
		}
		else if (op.name == "SetKey") { maps.Set(k, v); e.i("k", k).i("v", v); }
		else if (op.name == "Erase") { maps.Erase(k); e.i("k", k); }
		else if (op.name == "Retrieve" || op.name == "RetrieveSet")
		{
			if (!maps.Has(k))
			{
				if (!Checked)
					return;
				bool ok = Attempt([&] { maps.Retrieve(k, how % 2 != 0, [](auto&) {}); });
				Ev m("RetrieveFails");
				m.i("k", k).s("out", ok ? "value" : "assert");
				State(m);
				return;
			}
			bool same = false;
			int r = -5;
			if (op.name == "Retrieve")
				maps.Retrieve(k, how % 2 != 0, [&](auto& x) { same = (&x == maps.Where(k)); r = x.v; });
			else
				maps.Retrieve(k, false, [&](auto& x) { same = (&x == maps.Where(k)); if constexpr (!std::is_const_v<std::remove_reference_t<decltype(x)>>) x.v = v; r = v; });
			e.i("k", k).i("v", v).i("ret", r).b("same", same);
		}
		else if (op.name == "New")
		{
			if (s >= 2) c = 1 + c % 2;
			owners.New(s, c);
			e.i("s", s).i("c", c);
		}
		else if (op.name == "Reset")
		{
			if (s < 2) owners.b[s].reset(); else owners.d[s - 2].reset();
			e.i("s", s);
		}
		else if (op.name == "Cast")
		{
			if (s == t || (t >= 2 && owners.Id(s) && owners.Class(s) != 1 && owners.Class(s) != 2))
				return;
			owners.Cast(s, t);
			e.i("s", s).i("t", t);
		}
		else if (op.name == "Construct")
		{
			Cell& x = cells[c % 3];
			if (x.thing)
				return;
			Thing* p = reinterpret_cast<Thing*>(x.mem);
			int given = v, seen = 0;
			Thing* r = (how % 2) ? Nz::PlacementNew(p, v, std::make_unique<int>(v), seen, std::string(40, 'x')) : Nz::PlacementNew(p, std::move(given));
			x.thing = r;
			e.i("c", c % 3).i("v", v).b("same", r == p).b("forwarded", (how % 2) ? seen == v && x.thing->p && *x.thing->p == v : given == -3);
		}
		else if (op.name == "Destroy")
		{
			Cell& x = cells[c % 3];
			if (!x.thing)
				return;
			int had = x.thing->v;
			Nz::PlacementDestroy(x.thing);
			x.thing = nullptr;
			e.i("c", c % 3).i("ret", had);
		}
		else if (op.name == "DestroyNull")
			Nz::PlacementDestroy(static_cast<Thing*>(nullptr));
		else
			return;
		State(e);
	}
};

static void Run(const std::vector<Op>& script, const std::string&)
{
	Trap();
	std::optional<World> w;
	for (const Op& op : script)
	{
		if (op.name == "Begin")
		{
			w.reset();
			dead.clear();
			made = 0;
			Thing::born = Thing::died = Thing::copies = 0;
			w.emplace(int(Mod(op.get("kind"), 6)), int(Mod(op.get("map"), 3)));
			Ev("Begin").b("chk", Checked).emit();
		}
		else if (op.name == "BitCast")
		{
			std::uint64_t r = 0;
			std::vector<ll> d = op.list("v");
			for (std::size_t i = 0; i < d.size() && i < 4; ++i)
				r |= std::uint64_t(d[i] & 0xFFFF) << (16 * i);
			switch (Mod(op.get("form"), 13))
			{
				case 0: Bits<Nz::UInt32, float>(r, "float to u32"); break;
				case 1: Bits<float, Nz::UInt32>(r, "u32 to float"); break;
				case 2: Bits<Nz::UInt64, double>(r, "double to u64"); break;
				case 3: Bits<double, Nz::Int64>(r, "i64 to double"); break;
				case 4: Bits<Raw<8>, double>(r, "double to bytes"); break;
				case 5: Bits<Nz::UInt64, Raw<8>>(r, "bytes to u64"); break;
				case 6: Bits<Halves, Nz::Int32>(r, "i32 to halves"); break;
				case 7: Bits<Nz::Int8, unsigned char>(r, "byte to i8"); break;
				case 8: Bits<void*, std::uintptr_t>(r, "integer to pointer"); break;
				case 9: Bits<std::uintptr_t, const int*>(r, "pointer to integer"); break;
				case 10: Bits<Long, Nz::Int64>(r, "i64 to enumeration"); break;
				case 11: Bits<Raw<3>, Raw<3>>(r, "three bytes"); break;
				default: ConstantBits(); break;
			}
		}
		else if (op.name == "CountOf")
			Counts(int(Mod(op.get("n"), 400)));
		else if (op.name == "Underlying")
		{
			ll v = op.get("v");
			switch (Mod(op.get("form"), 4))
			{
				case 0: Under<Small>(v); break;
				case 1: Under<WideEnum>(v * 4294967311ll); break;
				case 2: Under<Old>(v); break;
				default: { constexpr auto r = Nz::UnderlyingCast(Small(-5)); Ev("Underlying").big("v", -5).big("ret", r).b("type", true).emit(); break; }
			}
		}
		else
			w->Exec(op);
	}
	w.reset();
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
