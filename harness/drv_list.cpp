// Generated programs over type lists: NZV_GEN is included in Run and instantiates the operations.
#include "nzv.hpp"
#include <NazaraUtils/TypeList.hpp>
#include <memory>
#include <string>
#include <tuple>

using namespace nzv;

// the alphabet: all kinds of types, incomplete ones and lists included
struct Incomplete;
template<int> struct Tag {};
template<typename... Ts> struct Pack { Pack() = delete; };
template<int N> struct TyOf { using type = Tag<N>; };
template<> struct TyOf<0> { using type = int; };
template<> struct TyOf<1> { using type = const int; };
template<> struct TyOf<2> { using type = void; };
template<> struct TyOf<3> { using type = int&; };
template<> struct TyOf<4> { using type = Incomplete; };
template<> struct TyOf<5> { using type = Nz::TypeList<>; };
template<> struct TyOf<6> { using type = Nz::TypeList<int>; };
template<> struct TyOf<7> { using type = int[3]; };
template<> struct TyOf<8> { using type = void(int); };
template<> struct TyOf<9> { using type = int&&; };
template<int N> using Ty = typename TyOf<N>::type;
constexpr int Types = 13;

template<typename A, typename B> struct Same { static constexpr bool value = false; };
template<typename A> struct Same<A, A> { static constexpr bool value = true; };
template<typename T, int N = 0> constexpr int Id()
{
	if constexpr (N == Types)
		return -2;
	else if constexpr (Same<T, Ty<N>>::value)
		return N;
	else
		return Id<T, N + 1>();
}

template<typename L> struct Ids;
template<typename... Ts> struct Ids<Nz::TypeList<Ts...>> { static std::vector<int> Get() { return { Id<Ts>()... }; } };
template<typename... Ts> struct Ids<Pack<Ts...>> { static std::vector<int> Get() { return { Id<Ts>()... }; } };
template<typename... Ts> struct Ids<std::tuple<Ts...>*> { static std::vector<int> Get() { return { Id<Ts>()... }; } };
template<typename... Ts> using PackAlias = std::tuple<Ts...>*;

template<int... Ns> using L = Nz::TypeList<Ty<Ns>...>;

template<int Fn> constexpr int Fun(int t)
{
	if (Fn == 0) return (t + 1) % Types;
	if (Fn == 1) return 0;
	if (Fn == 2) return t;
	return (t * 5 + 2) % Types;
}
template<typename T> struct Tr0 { using type = Ty<Fun<0>(Id<T>())>; };
template<typename T> struct Tr1 { using type = Ty<Fun<1>(Id<T>())>; };
template<typename T> struct Tr2 { using type = T; };
template<typename T> struct Tr3 { using type = Ty<Fun<3>(Id<T>())>; };

// a program's current list is a type of C++; each step is a template instance
template<typename List> struct Start
{
	using R = List;
	Start() { Ev("Start").arr("from", Ids<R>::Get()).emit(); }
};
template<typename List, int T> struct Append
{
	using R = Nz::TypeListAppend<List, Ty<T>>;
	Append() { Ev("Append").i("t", T).arr("ret", Ids<R>::Get()).emit(); }
};
template<typename List, int T> struct Prepend
{
	using R = Nz::TypeListPrepend<List, Ty<T>>;
	Prepend() { Ev("Prepend").i("t", T).arr("ret", Ids<R>::Get()).emit(); }
};
template<typename List, typename S> struct Concat
{
	using R = Nz::TypeListConcat<List, S>;
	Concat() { Ev("Concat").arr("s", Ids<S>::Get()).arr("ret", Ids<R>::Get()).emit(); }
};
template<typename List, typename S> struct ConcatTo
{
	using R = Nz::TypeListConcat<S, List>;
	ConcatTo() { Ev("ConcatTo").arr("s", Ids<S>::Get()).arr("ret", Ids<R>::Get()).emit(); }
};
template<typename List, int T> struct Remove
{
	using R = Nz::TypeListRemove<List, Ty<T>>;
	Remove() { Ev("Remove").i("t", T).arr("ret", Ids<R>::Get()).emit(); }
};
template<typename List> struct Unique
{
	using R = Nz::TypeListUnique<List>;
	Unique() { Ev("Unique").arr("ret", Ids<R>::Get()).emit(); }
};
template<typename List, int Fn, typename Res> struct Transformed
{
	using R = Res;
	Transformed()
	{
		std::vector<int> f;
		for (int t = 0; t < Types; ++t)
			f.push_back(Fun<Fn>(t));
		Ev("Transform").arr("f", f).arr("ret", Ids<R>::Get()).emit();
	}
};
template<typename List, int Fn> struct Transform : Transformed<List, Fn, Nz::TypeListTransform<List, Tr0>> {};
template<typename List> struct Transform<List, 1> : Transformed<List, 1, Nz::TypeListTransform<List, Tr1>> {};
template<typename List> struct Transform<List, 2> : Transformed<List, 2, Nz::TypeListTransform<List, Tr2>> {};
template<typename List> struct Transform<List, 3> : Transformed<List, 3, Nz::TypeListTransform<List, Tr3>> {};
template<typename List, int Which> struct Instantiate
{
	using R = List;
	Instantiate()
	{
		if constexpr (Which == 0)
			Ev("Instantiate").arr("ret", Ids<Nz::TypeListInstantiate<List, Pack>>::Get()).emit();
		else if constexpr (Which == 1)
			Ev("Instantiate").arr("ret", Ids<Nz::TypeListInstantiate<List, Nz::TypeList>>::Get()).emit();
		else
			Ev("Instantiate").arr("ret", Ids<Nz::TypeListInstantiate<List, PackAlias>>::Get()).emit();
	}
};
template<typename List, int I> struct At
{
	using R = List;
	At()
	{
		constexpr std::size_t Size = Nz::TypeListSize<List>;
		if constexpr (I < Size)
			Ev("At").i("i", I).i("ret", Id<Nz::TypeListAt<List, I>>()).emit();
	}
};
template<typename List, int T> struct Find
{
	using R = List;
	Find()
	{
		constexpr std::size_t P = Nz::TypeListFind<List, Ty<T>>;
		Ev("Find").i("t", T).sz("ret", P).emit();
	}
};
template<typename List, int T> struct Has
{
	using R = List;
	Has()
	{
		constexpr bool P = Nz::TypeListHas<List, Ty<T>>;
		Ev("Has").i("t", T).b("ret", P).emit();
	}
};
template<typename List> struct Size
{
	using R = List;
	Size()
	{
		constexpr std::size_t P = Nz::TypeListSize<List>;
		Ev("Size").sz("ret", P).emit();
	}
};
template<typename List> struct Empty
{
	using R = List;
	Empty()
	{
		constexpr bool P = Nz::TypeListEmpty<List>;
		Ev("Empty").b("ret", P).emit();
	}
};

using Calls = std::vector<std::vector<int>>;
static int Payload(const std::string& s) { return s.empty() ? -1 : std::atoi(s.c_str()); }
// a functor that takes its argument by value consumes its own copy
template<typename T> struct ByValue { void operator()(Calls& c, std::string s) { c.push_back({ Id<T>(), Payload(s) }); s.clear(); } };
template<typename T> struct ByConstRef { void operator()(Calls& c, const std::string& s) const { c.push_back({ Id<T>(), Payload(s) }); } };
template<typename T> struct ByRef { void operator()(Calls& c, std::string& s) { c.push_back({ Id<T>(), Payload(s) }); } };
template<typename T> struct ByRvalue { void operator()(Calls& c, std::unique_ptr<std::string>&& s) { c.push_back({ Id<T>(), Payload(*s) }); } };
template<typename T> struct ByAny
{
	template<typename... Args> void operator()(Args&&... args) { Push(args...); }
	void Push(Calls& c, const std::string& s) { c.push_back({ Id<T>(), Payload(s) }); }
};
static Calls* noArgs;
template<typename T> struct NoArgs { void operator()() const { noArgs->push_back({ Id<T>(), 7 }); } };

template<typename List, int How> struct Apply
{
	using R = List;
	Apply()
	{
		Calls c;
		std::string kept = "7";
		const std::string konst = "7";
		if constexpr (How == 0) Nz::TypeListApply<List, ByValue>(c, kept);
		else if constexpr (How == 1) Nz::TypeListApply<List, ByValue>(c, std::string("7"));
		else if constexpr (How == 2) Nz::TypeListApply<List, ByConstRef>(c, konst);
		else if constexpr (How == 3) Nz::TypeListApply<List, ByConstRef>(c, std::string("7"));
		else if constexpr (How == 4) Nz::TypeListApply<List, ByRef>(c, kept);
		else if constexpr (How == 5) Nz::TypeListApply<List, ByRvalue>(c, std::make_unique<std::string>("7"));
		else if constexpr (How == 6) Nz::TypeListApply<List, ByAny>(c, kept);
		else if constexpr (How == 7) { noArgs = &c; Nz::TypeListApply<List, NoArgs>(); }
		Ev("Apply").i("v", 7).i("how", How).arr2("ret", c).i("left", Payload(kept)).emit();
	}
};

static void Run(const std::vector<Op>&, const std::string&)
{
	#include NZV_GEN
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
