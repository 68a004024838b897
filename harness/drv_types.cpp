// Type introspection: NZV_GEN names a generated header of types T0, T1, ... and of a function Generated() that reports on each.
#include "nzv.hpp"
#include <NazaraUtils/FunctionTraits.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <NazaraUtils/TypeTag.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <string>
#include <string_view>
#include <type_traits>
#include <variant>

using namespace nzv;

struct Foo;
struct Inc;
template<typename> struct Class {};
template<int> struct Int {};
namespace N
{
	enum Color { Red };
	struct Bar { int x; };
	template<typename, typename> struct Pair {};
}
namespace SomeNamespace { namespace AnInnerNamespace { struct AClassWhoseNameIsSoLongThatItDoesNotFitInAFixedBuffer {}; } }
struct Foo { int x; };

template<typename T> using Ptr = std::add_pointer_t<T>;
template<typename T> using LRef = T&;
template<typename T> using RRef = T&&;
template<typename T> using Const = std::add_const_t<T>;
template<typename T> using Volatile = std::add_volatile_t<T>;
template<typename T, int N> using Arr = T[N];
template<typename T> using UArr = T[];
template<typename R, typename... P> using Fun = R(P...);
template<typename C, typename T> using Mem = T C::*;
template<typename F> struct QualOf;
template<typename R, typename... P> struct QualOf<R(P...)>
{
	template<bool C, bool V, int Ref, bool X> static auto get()
	{
		// every combination of qualifiers
		if constexpr (!C && !V && Ref == 0) return static_cast<Class<R(P...) noexcept(X)>*>(nullptr);
		else if constexpr (!C && !V && Ref == 1) return static_cast<Class<R(P...) & noexcept(X)>*>(nullptr);
		else if constexpr (!C && !V) return static_cast<Class<R(P...) && noexcept(X)>*>(nullptr);
		else if constexpr (C && !V && Ref == 0) return static_cast<Class<R(P...) const noexcept(X)>*>(nullptr);
		else if constexpr (C && !V && Ref == 1) return static_cast<Class<R(P...) const& noexcept(X)>*>(nullptr);
		else if constexpr (C && !V) return static_cast<Class<R(P...) const&& noexcept(X)>*>(nullptr);
		else if constexpr (!C && Ref == 0) return static_cast<Class<R(P...) volatile noexcept(X)>*>(nullptr);
		else if constexpr (!C && Ref == 1) return static_cast<Class<R(P...) volatile& noexcept(X)>*>(nullptr);
		else if constexpr (!C) return static_cast<Class<R(P...) volatile&& noexcept(X)>*>(nullptr);
		else if constexpr (Ref == 0) return static_cast<Class<R(P...) const volatile noexcept(X)>*>(nullptr);
		else if constexpr (Ref == 1) return static_cast<Class<R(P...) const volatile& noexcept(X)>*>(nullptr);
		else return static_cast<Class<R(P...) const volatile&& noexcept(X)>*>(nullptr);
	}
};
#define NZV_UNQUAL(...) template<typename R, typename... P> struct QualOf<R(P...) __VA_ARGS__> : QualOf<R(P...)> {};
NZV_UNQUAL(noexcept) NZV_UNQUAL(&) NZV_UNQUAL(& noexcept) NZV_UNQUAL(&&) NZV_UNQUAL(&& noexcept)
NZV_UNQUAL(const) NZV_UNQUAL(const noexcept) NZV_UNQUAL(const&) NZV_UNQUAL(const& noexcept) NZV_UNQUAL(const&&) NZV_UNQUAL(const&& noexcept)
NZV_UNQUAL(volatile) NZV_UNQUAL(volatile noexcept) NZV_UNQUAL(volatile&) NZV_UNQUAL(volatile& noexcept) NZV_UNQUAL(volatile&&) NZV_UNQUAL(volatile&& noexcept)
NZV_UNQUAL(const volatile) NZV_UNQUAL(const volatile noexcept) NZV_UNQUAL(const volatile&) NZV_UNQUAL(const volatile& noexcept) NZV_UNQUAL(const volatile&&) NZV_UNQUAL(const volatile&& noexcept)
template<typename T> struct Inner;
template<typename T> struct Inner<Class<T>*> { using type = T; };
template<typename F, bool C, bool V, int Ref, bool X> using Qual = typename Inner<decltype(QualOf<F>::template get<C, V, Ref, X>())>::type;

// what the compiler calls a type
template<typename T> const char* Pretty() { return __PRETTY_FUNCTION__; }

static std::string Strip(std::string_view s)
{
	std::string r;
	for (char c : s)
		if (c != ' ')
			r += (c == '"' || c == '\\') ? '?' : c;
	return r;
}

template<typename T> std::string Own()
{
	std::string_view s = Pretty<T>();
	std::size_t b = s.find("T = ") + 4;
	return Strip(s.substr(b, s.rfind(']') - b));
}

template<typename L> struct Names;
template<typename... T> struct Names<Nz::TypeList<T...>> { static std::vector<std::string> get() { return { Own<T>()... }; } };

template<typename Tr, std::size_t... I> std::vector<std::string> ArgNames(std::index_sequence<I...>) { return { Own<typename Tr::template ArgType<I>>()... }; }

template<typename T> void Traits(Ev& e)
{
	using Tr = Nz::FunctionTraits<T>;
	constexpr std::size_t n = Tr::ArgCount;
	e.b("traits", true).i("count", n).s("ret", Own<typename Tr::ReturnType>()).sarr("types", Names<typename Tr::ArgTypes>::get());
	e.sarr("args", ArgNames<Tr>(std::make_index_sequence<n>())).s("func", Own<typename Tr::FuncType>());
}

// a type: HasTraits tells whether it has function traits, Whole whether pointers to it exist (neither a reference nor a qualified function)
template<typename T, bool HasTraits, bool Whole> void Make(int id, int from, const char* act)
{
	constexpr std::string_view name = Nz::TypeName<T>();
	std::string later(Nz::TypeName<T>());
	Ev e("Make");
	e.i("id", id).i("from", from).raw("act", act).s("name", Strip(name)).b("steady", name == later).s("own", Own<T>());
	e.s("rmcvref", Own<Nz::RemoveCvRef_t<T>>()).b("functor", Nz::IsFunctor_v<T>);
	if constexpr (HasTraits)
		Traits<T>(e);
	else
		e.b("traits", false);
	if constexpr (Whole)
		e.b("whole", true).b("complete", Nz::IsComplete_v<T>).s("pointer", Own<Nz::Pointer<T>>());
	else
		e.b("whole", false);
	if constexpr (std::is_pointer_v<T>)
		e.s("pointed", Own<typename Nz::PointedType<T>::type>());
	e.b("lazyvoid", std::is_void_v<Nz::LazyVoid_t<T>>).b("never", Nz::AlwaysFalse<T>::value).s("tag", Own<typename Nz::TypeTag<T>::Type>());
	e.emit();
}

template<typename T> void PlainFunction(int id)
{
	Ev("FunctionPtr").i("id", id).s("r", Own<Nz::FunctionPtr<T>>()).emit();
}

template<typename T> void Functor(int f, const char* form)
{
	Ev e("Functor");
	e.i("f", f).s("form", form).b("functor", Nz::IsFunctor_v<std::remove_cv_t<std::remove_reference_t<T>>>);
	Traits<T>(e);
	e.emit();
}

// the pointer an overload set is resolved to
template<typename P> void Resolved(const char* cls, std::vector<int> fs, std::vector<int> args)
{
	Ev("Resolve").s("cls", cls).arr("fs", fs).arr("args", args).s("r", Own<P>()).emit();
}

template<typename T, typename... As> struct Allowed
{
	template<typename X> static auto test(Nz::PreventHiddenCopyMove<X, As...>*) -> std::true_type;
	template<typename X> static auto test(...) -> std::false_type;
	static constexpr bool value = decltype(test<T>(nullptr))::value;
};
template<typename T, typename... As> void Hidden(int t, std::vector<int> as)
{
	Ev("Hidden").i("t", t).arr("as", as).b("allowed", Allowed<T, As...>::value).emit();
}
template<typename T, typename... As> void First(int t, std::vector<int> as)
{
	Ev("First").i("t", t).arr("as", as).b("r", Nz::IsFirstType_v<T, As...>).emit();
}
template<typename E> void Values(const char* kind, int last)
{
	Ev("Values").s("kind", kind).i("last", last).sz("r", Nz::EnumValueCount_v<E>).emit();
}

#include NZV_GEN

/*** calls through what Overload returns ***/

struct Many
{
	int f(int) { return 1; }
	int f(float) const { return 2; }
	int f(char) noexcept { return 3; }
	int f(int, int) & { return 4; }
	int f(const char*) && { return 5; }
	int f(double) const noexcept { return 6; }
	int f(long) const& { return 7; }
	int f(short) const&& { return 8; }
	int f(unsigned) & noexcept { return 9; }
	int f(bool) && noexcept { return 10; }
	int f(int*) const& noexcept { return 11; }
	int f() const&& noexcept { return 12; }
	static int s(int) { return 13; }
	static int s(float) noexcept { return 14; }
};
static int g(int) { return 15; }
static int g(char, char) noexcept { return 16; }

static void Call(int expected, int got) { Ev("Call").i("x", expected).i("r", got).emit(); }

static void Calls()
{
	Many m;
	const Many& c = m;
	using Nz::Overload;
	Call(1, (m.*Overload<int>(&Many::f))(0));
	Call(2, (c.*Overload<float>(&Many::f))(0));
	Call(3, (m.*Overload<char>(&Many::f))(0));
	Call(4, (m.*Overload<int, int>(&Many::f))(0, 0));
	Call(5, (Many().*Overload<const char*>(&Many::f))(nullptr));
	Call(6, (c.*Overload<double>(&Many::f))(0));
	Call(7, (c.*Overload<long>(&Many::f))(0));
	Call(8, (std::move(c).*Overload<short>(&Many::f))(0));
	Call(9, (m.*Overload<unsigned>(&Many::f))(0));
	Call(10, (Many().*Overload<bool>(&Many::f))(false));
	Call(11, (c.*Overload<int*>(&Many::f))(nullptr));
	Call(12, (std::move(c).*Overload<>(&Many::f))());
	Call(13, Overload<int>(&Many::s)(0));
	Call(14, Overload<float>(&Many::s)(0));
	Call(15, Overload<int>(&g)(0));
	Call(16, Overload<char, char>(&g)(0, 0));
	// Overloaded picks the callable by the type of the argument
	std::variant<int, float, std::string> v[] = { 1, 2.f, std::string("3") };
	for (int n = 0; n < 3; ++n)
		Call(n, std::visit(Nz::Overloaded{ [](int) { return 0; }, [](float) { return 1; }, [](const std::string&) { return 2; } }, v[n]));
}

static void Run(const std::vector<Op>&, const std::string&)
{
	Ev("Begin").emit();
	Generated();
	Calls();
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
