// Conformance driver of EnumArray.
#include "nzv.hpp"
#include <NazaraUtils/EnumArray.hpp>
#include <algorithm>
#include <memory>
#include <optional>
#include <utility>

using namespace nzv;
enum class E1 { Only, Max = Only };
enum class E2 : std::uint8_t { A, B, Count };
enum class E3 { A, B, C, Max = C };
enum class E7 : signed char { Count = 7 };
enum class E64 : unsigned { Max = 63 };
enum class E200 : std::uint8_t { Count = 200 };
enum class E256 : std::uint8_t { Max = 255 };
enum class E300 : int { Count = 300 };
enum class E260 : std::int16_t { Max = 259 };
enum E5 { E5_A, E5_B, E5_C, E5_D, E5_E };
template<> struct Nz::EnumValueCount<E5> { static constexpr std::size_t value = 5; };

// an element type that is not an integer
struct Box
{
	std::unique_ptr<int> v;
	Box(int x = 0) : v(std::make_unique<int>(x)) {}
	Box(const Box& b) : v(std::make_unique<int>(*b.v)) {}
	Box& operator=(const Box& b) { *v = *b.v; return *this; }
	bool operator==(const Box& b) const { return *v == *b.v; }
	bool operator!=(const Box& b) const { return *v != *b.v; }
	bool operator<(const Box& b) const { return *v < *b.v; }
};
static int Val(int v) { return v; }
static int Val(unsigned char v) { return v; }
static int Val(const Box& v) { return *v.v; }

template<typename E, typename V> struct Drv
{
	using A = Nz::EnumArray<E, V>;
	using It = typename A::kv_iterator;
	using CIt = typename A::kv_const_iterator;
	static constexpr std::size_t Len = Nz::EnumValueCount_v<E>;
	static constexpr std::size_t N = 3;
	A arr[N];
	// an iterator is held in both forms, moved together
	struct Pos { std::optional<It> it; std::optional<CIt> cit; std::size_t a = 0; };
	Pos its[N];

	static E En(std::size_t k) { return static_cast<E>(k); }
	static std::vector<int> State(const A& a)
	{
		std::vector<int> r;
		for (std::size_t k = 0; k < Len; ++k) r.push_back(Val(a[En(k)]));
		return r;
	}
	void Emit(Ev& e, int o, int p = -1, int i = -1, int j = -1)
	{
		if (o >= 0) e.i("o", o + 1).arr("s", State(arr[o]));
		if (p >= 0) e.i("p", p + 1).arr("s2", State(arr[p]));
		if (i >= 0) e.i("i", i + 1).i("pos", Where(its[i]));
		if (j >= 0) e.i("j", j + 1).i("pos2", Where(its[j]));
		e.emit();
	}
	// position told by comparing with iterators obtained by stepping; both forms must agree
	template<typename T, typename R> static ll Find(const T& x, R range)
	{
		ll n = 0;
		for (T c = range.begin(); ; ++c, ++n)
		{
			if (c == x) return n;
			if (n > ll(Len) + 2) return -100;
		}
	}
	ll Where(const Pos& p)
	{
		ll x = Find(*p.it, arr[p.a].iter_kv()), y = Find(*p.cit, std::as_const(arr[p.a]).iter_kv());
		return x == y ? x : -200;
	}
	void Point(std::size_t i, std::size_t o, bool end)
	{
		auto r = arr[o].iter_kv();
		auto c = std::as_const(arr[o]).iter_kv();
		its[i].it = end ? r.end() : r.begin();
		its[i].cit = end ? c.end() : c.begin();
		its[i].a = o;
	}
	void Step(const Op& op)
	{
		SetDuring(Describe(op));
		const std::string& n = op.name;
		std::size_t o = Mod(op.get("o"), N), p = Mod(op.get("p"), N), i = Mod(op.get("i"), N), j = Mod(op.get("j"), N), k = Mod(op.get("k"), Len);
		int v = int(Mod(op.get("v"), 200));
		ll how = op.get("how");
		if (n == "Begin")
		{
			for (auto& a : arr)
				for (std::size_t x = 0; x < Len; ++x) a[En(x)] = V(0);
			for (std::size_t x = 0; x < N; ++x) Point(x, 0, false);
			Ev e("Begin");
			e.i("n", Len);
			e.emit();
			return;
		}
		Pos& q = its[i];
		ll at = Where(q);
		if (n == "Write")
		{
			A& a = arr[o];
			switch (Mod(how, 4))
			{
				case 0: a[En(k)] = V(v); break;
				case 1: *(a.begin() + ll(k)) = V(v); break;
				case 2: a.data()[k] = V(v); break;
				default: for (auto&& [key, value] : a.iter_kv()) if (key == En(k)) value = V(v);
			}
			Ev e("Write");
			e.i("k", ll(k)).i("v", v).i("how", how);
			return Emit(e, int(o));
		}
		if (n == "Fill")
		{
			if (how & 1) arr[o].fill(V(v));
			else for (auto&& kv : arr[o].iter_kv()) kv.second = V(v);
			Ev e("Fill");
			e.i("v", v);
			return Emit(e, int(o));
		}
		if (n == "Copy")
		{
			if (o == p) return;
			if (how & 1) arr[o] = arr[p];
			else { A copy(arr[p]); arr[o] = std::move(copy); }
			Ev e("Copy");
			return Emit(e, int(o), int(p));
		}
		if (n == "Swap")
		{
			if (o == p) return;
			if (how & 1) arr[o].swap(arr[p]);
			else std::swap(arr[o], arr[p]);
			Ev e("Swap");
			return Emit(e, int(o), int(p));
		}
		if (n == "Begin_it" || n == "End_it")
		{
			Point(i, o, n == "End_it");
			Ev e("Point");
			e.b("end", n == "End_it");
			return Emit(e, int(o), -1, int(i));
		}
		if (n == "Step")
		{
			ll d = op.get("d") < 0 ? -1 : 1;
			if (at + d < 0 || at + d > ll(Len)) return;
			bool post = how & 1, ref = true;
			Pos r;
			r.a = q.a;
			if (post)
			{
				r.it = d > 0 ? (*q.it)++ : (*q.it)--;
				r.cit = d > 0 ? (*q.cit)++ : (*q.cit)--;
			}
			else
			{
				It& x = d > 0 ? ++*q.it : --*q.it;
				CIt& y = d > 0 ? ++*q.cit : --*q.cit;
				ref = &x == &*q.it && &y == &*q.cit;
				r.it = x; r.cit = y;
			}
			Ev e("Step");
			e.i("d", d).b("post", post).b("ref", ref).i("ret", Where(r));
			return Emit(e, -1, -1, int(i));
		}
		if (n == "Move" || n == "Offset")
		{
			ll d = op.get("d");
			if (at + d < 0 || at + d > ll(Len)) d = ll(Mod(d, Len + 1)) - at;
			if (n == "Move")
			{
				bool neg = how & 1;
				auto&& x = neg ? *q.it -= -d : *q.it += d;
				auto&& y = neg ? *q.cit -= -d : *q.cit += d;
				Pos r;
				r.a = q.a; r.it = x; r.cit = y;
				Ev e("Move");
				e.i("d", d).i("ret", Where(r)).b("ref", &x == &*q.it && &y == &*q.cit);
				return Emit(e, -1, -1, int(i));
			}
			const It& x = *q.it;
			const CIt& y = *q.cit;
			Pos r;
			r.a = q.a;
			switch (Mod(how, 3))
			{
				case 0: r.it = x + d; r.cit = y + d; break;
				case 1: r.it = x - (-d); r.cit = y - (-d); break;
				default: r.it = d + x; r.cit = d + y;
			}
			Ev e("Offset");
			e.i("d", d);
			if (i == j)
				its[j] = r;
			else
			{
				its[j] = r;
				e.i("i", ll(i) + 1).i("pos", Where(its[i]));
				return Emit(e, -1, -1, -1, int(j));
			}
			e.i("j", ll(j) + 1);
			return Emit(e, -1, -1, int(i));
		}
		if (n == "WriteAt" || n == "Deref")
		{
			if (Len == 0) return;
			ll d = op.get("d");
			if (at + d < 0 || at + d >= ll(Len)) d = ll(Mod(d, Len)) - at;
			bool sub = d != 0 || (how & 1);
			if (n == "WriteAt")
			{
				auto kv = sub ? (*q.it)[d] : **q.it;
				kv.second = V(v);
				Ev e("WriteAt");
				e.i("d", d).i("v", v).i("key", ll(static_cast<std::underlying_type_t<E>>(kv.first)));
				return Emit(e, int(q.a), -1, int(i));
			}
			auto kv = sub ? (*q.it)[d] : **q.it;
			auto ckv = sub ? (*q.cit)[d] : **q.cit;
			bool ref = &kv.second == &ckv.second && kv.first == ckv.first && &kv.second == &arr[q.a][kv.first];
			Ev e("Deref");
			e.i("d", d).i("key", ll(static_cast<std::underlying_type_t<E>>(kv.first))).i("val", Val(ckv.second)).b("ref", ref);
			return Emit(e, -1, -1, int(i));
		}
		if (n == "Compare")
		{
			if (its[j].a != q.a) { Point(j, q.a, how & 1); Ev e("Point"); e.b("end", how & 1).i("o", ll(q.a) + 1); e.i("i", ll(j) + 1); e.emit(); }
			auto cmp = [](const auto& x, const auto& y) { return std::vector<int>{ x == y, x != y, x < y, x <= y, x > y, x >= y }; };
			auto c1 = cmp(*q.it, *its[j].it), c2 = cmp(*q.cit, *its[j].cit);
			if (c1 != c2) c1.push_back(9);
			Ev e("Compare");
			e.arr("c", c1);
			return Emit(e, -1, -1, int(i), int(j));
		}
		if (n == "Observe")
		{
			A& a = arr[o];
			const A& c = a;
			std::vector<std::vector<int>> fwd(6), rev(3), keys(2);
			for (auto& x : a) fwd[0].push_back(Val(x));
			for (auto& x : c) fwd[1].push_back(Val(x));
			for (auto&& [key, value] : a.iter_kv()) { keys[0].push_back(int(static_cast<std::underlying_type_t<E>>(key))); fwd[2].push_back(Val(value)); if (fwd[2].size() > 300) break; }
			for (auto&& [key, value] : c.iter_kv()) { keys[1].push_back(int(static_cast<std::underlying_type_t<E>>(key))); fwd[3].push_back(Val(value)); if (fwd[3].size() > 300) break; }
			for (std::size_t x = 0; x < Len; ++x) fwd[4].push_back(Val(c[En(x)]));
			for (std::size_t x = 0; x < Len; ++x) fwd[5].push_back(Val(a[En(x)]));
			for (auto x = a.rbegin(); x != a.rend(); ++x) rev[0].push_back(Val(*x));
			for (auto x = c.crbegin(); x != c.crend(); ++x) rev[1].push_back(Val(*x));
			{
				auto range = c.iter_kv();
				auto x = range.end();
				while (x != range.begin() && rev[2].size() < 300) { --x; rev[2].push_back(Val((*x).second)); }
			}
			Ev e("Observe");
			e.arr2("fwd", fwd).arr2("rev", rev).arr2("keys", keys).arr("size", std::vector<ll>{ ll(c.size()), ll(c.max_size()), ll(c.end() - c.begin()) })
			 .i("front", Val(c.front())).i("back", Val(c.back())).arr("cmp", std::vector<int>{ c == arr[p], c != arr[p], c < arr[p] });
			return Emit(e, int(o), int(p));
		}
	}
	void Run(const std::vector<Op>& s)
	{
		for (auto& x : s)
			Step(x);
	}
};

// the interface is usable in constant expressions (std::ref is since C++20)
#if __cplusplus >= 202002L
constexpr int Sum()
{
	Nz::EnumArray<E3, int> a{ 1, 2, 3 };
	a[E3::B] = 20;
	int s = 0;
	const auto& c = a;
	auto r = a.iter_kv();
	auto cr = c.iter_kv();
	for (auto it = r.begin(); it != r.end(); ++it) s = s * 10 + int((*it).first);
	auto it = r.begin();
	it += 2;
	it -= 1;
	it++;
	it--;
	return s * 1000 + it[1].second * 100 + (cr.begin() < cr.end()) * 10 + c[E3::B];
}
static_assert(Sum() == 12 * 1000 + 300 + 10 + 20);
#endif

static void Run(const std::vector<Op>& s, const std::string& cfg)
{
	if (cfg == "1") return Drv<E1, int>().Run(s);
	if (cfg == "2") return Drv<E2, unsigned char>().Run(s);
	if (cfg == "3") return Drv<E3, int>().Run(s);
	if (cfg == "3b") return Drv<E3, Box>().Run(s);
	if (cfg == "5") return Drv<E5, Box>().Run(s);
	if (cfg == "7") return Drv<E7, int>().Run(s);
	if (cfg == "64") return Drv<E64, unsigned char>().Run(s);
	if (cfg == "200") return Drv<E200, int>().Run(s);
	if (cfg == "300") return Drv<E300, int>().Run(s);
	if (cfg == "260") return Drv<E260, unsigned char>().Run(s);
	if (cfg == "256") return Drv<E256, int>().Run(s);
	std::exit(2);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
