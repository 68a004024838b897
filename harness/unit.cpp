// One translation unit of an inclusion program: the headers NZV_ORDER says, in that order, then a use of each of them.
// NZV_TU numbers the unit.  Every use relies on its own header only.
#include NZV_ORDER

namespace
{
	int values[64];
	int names[64];
	int count;
	void Put(int header, long value) { names[count] = header; values[count] = int(value); ++count; }
}

#ifdef NZV_Algorithm
static void UseAlgorithm()
{
	int a[5] = { 1, 2, 3, 4, 5 };
	enum class E : unsigned char { A = 7 };
	std::unique_ptr<int> p = Nz::StaticUniquePointerCast<int>(std::unique_ptr<int>(new int(3)));
	Put(0, long(Nz::CountOf(a)) + 10 * Nz::AccessByOffset<int&>(a, 4) + 100 * Nz::SafeCast<int>(4L) + 1000 * int(Nz::UnderlyingCast(E::A)) + 10000 * (Nz::BitCast<unsigned>(1.0f) == 0x3F800000u) + 100000 * *p);
}
#endif
#ifdef NZV_Assert
static void UseAssert() { int n = 3; NazaraAssert(n == 3); NazaraAssertMsg(n > 0, "n is %d", n); Nz::Assert(n == 3, "message"); Put(1, n); }
#endif
#ifdef NZV_Bitset
static void UseBitset()
{
	Nz::Bitset<> b(70, false);
	b.Set(std::size_t(69));
	b.Set(std::size_t(3));
	Nz::Bitset<Nz::UInt8> c("1011");
	Put(2, long(b.Count()) + 10 * long(b.FindNext(3)) + 1000 * long(c.Count()) + 10000 * long(sizeof(Nz::Bitset<>::Bit) > 0));
}
#endif
#ifdef NZV_CallOnExit
static void UseCallOnExit() { int n = 0; { Nz::CallOnExit e([&n] { ++n; }); } Put(3, n); }
#endif
#ifdef NZV_Concepts
template<NAZARA_STD_CONCEPT_T(Nz::Arithmetic) T> static int Ten(T) { return 10; }
static void UseConcepts() { Put(4, Ten(3)); }
#endif
#ifdef NZV_ConstantEvaluated
NAZARA_CONSTEXPR20 static int When() { if NAZARA_IS_RUNTIME_EVAL() { return 1; } else { return 2; } }
static void UseConstantEvaluated() { volatile int k = 0; Put(5, When() + k); }
#endif
#ifdef NZV_Constants
static void UseConstants() { Put(6, long(Nz::Pi<double>() * 1000) + 10000 * long(Nz::HalfPi<float>() * 10) + 1000000 * (Nz::MaxValue<unsigned char>() == 255)); }
#endif
#ifdef NZV_DebugBreak
static void UseDebugBreak() { volatile bool never = false; if (never) { NazaraDebugBreak(); } Put(7, 1); }
#endif
#ifdef NZV_Endianness
static void UseEndianness() { Put(8, long(Nz::HostToBigEndian(Nz::UInt16(0x0102))) + 100000 * (Nz::PlatformEndianness == Nz::Endianness::LittleEndian)); }
#endif
#ifdef NZV_EnumArray
namespace { enum class EaE { A, B, C, Max = C }; }
static void UseEnumArray()
{
	Nz::EnumArray<EaE, int> e;
	e.fill(2);
	e[EaE::B] = 5;
	long s = 0;
	for (auto&& kv : e.iter_kv()) s = s * 10 + kv.second;
	Put(9, s);
}
#endif
#ifdef NZV_FixedVector
static void UseFixedVector() { Nz::FixedVector<int, 4> f; f.push_back(3); f.insert(f.begin(), 4); Nz::HybridVector<int, 2> h; for (int i = 0; i < 5; ++i) h.push_back(i); Put(10, long(f.size()) + 10 * f[0] + 100 * long(h.size()) + 1000 * long(sizeof(f))); }
#endif
#ifdef NZV_Flags
namespace { enum class FlE { A, B, C, Max = C }; }
namespace Nz { template<> struct EnumAsFlags<FlE> { static constexpr FlE max = FlE::Max; }; }
static void UseFlags() { Nz::Flags<FlE> f = FlE::A | FlE::C; f.Clear(FlE::B); Put(11, long(Nz::UInt32(f)) + 10 * f.Test(FlE::C)); }
#endif
#ifdef NZV_FunctionRef
static void UseFunctionRef() { int n = 4; auto l = [&n](int x) { return n += x; }; Nz::FunctionRef<int(int)> r(l); Put(12, r(3)); }
#endif
#ifdef NZV_FunctionTraits
static void UseFunctionTraits() { Put(13, long(sizeof(typename Nz::FunctionTraits<char(int, short)>::ReturnType))); }
#endif
#ifdef NZV_Hash
static void UseHash() { std::size_t s = 1; Nz::HashCombine(s, 5); Put(14, long(Nz::CRC32("abc") % 100000) + 100000 * long(Nz::FNV1a32("abc") % 1000) + 100000000 * (s != 1)); }
#endif
#ifdef NZV_MathUtils
static void UseMathUtils() { Put(15, long(Nz::CountBits(255u)) + 10 * long(Nz::IntegralPow(2, 5)) + 10000 * Nz::Clamp(5, 1, 3) + 100000 * long(Nz::Align(5u, 4u)) + 1000000 * Nz::NumberEquals(1.f, 1.f)); }
#endif
#ifdef NZV_MemoryHelper
static void UseMemoryHelper() { alignas(int) unsigned char raw[sizeof(int)]; int* p = Nz::PlacementNew(reinterpret_cast<int*>(raw), 6); Put(16, *p); Nz::PlacementDestroy(p); }
#endif
#ifdef NZV_MemoryPool
static void UseMemoryPool() { Nz::MemoryPool<int> pool(4); std::size_t i; pool.Allocate(i, 3); std::size_t j; int* p = pool.Allocate(j, 8); long v = *p + 10 * long(j) + 100 * long(pool.GetAllocatedEntryCount()); pool.Free(i); Put(17, v); }
#endif
#ifdef NZV_MovablePtr
static void UseMovablePtr() { int n = 3; Nz::MovablePtr<int> p(&n), q(std::move(p)); Put(18, *q + 10 * (p.Get() == nullptr)); }
#endif
#ifdef NZV_MovableValue
static void UseMovableValue() { Nz::MovableLiteral<int, 7> p(3), q(std::move(p)); Put(19, q.Get() + 10 * p.Get()); }
#endif
#ifdef NZV_OffsetOf
namespace { struct OfS { int a; char b; int c; }; }
static void UseOffsetOf() { Put(20, long(NazaraOffsetOf(OfS, c))); }
#endif
#ifdef NZV_PathUtils
static void UsePathUtils() { Put(21, long(Nz::PathToString(Nz::Utf8Path("a/b.txt")).size())); }
#endif
#ifdef NZV_Prerequisites
static void UsePrerequisites() { Put(22, long(sizeof(Nz::UInt8)) + 10 * long(sizeof(Nz::Int64)) + 1000 * (sizeof(NazaraStringifyMacro(NAZARA_CPP17)) > 1)); }
#endif
#ifdef NZV_PrivateImpl
namespace { struct PiS { int n; explicit PiS(int k) : n(k) {} }; }
static void UsePrivateImpl() { Nz::PrivateImpl<PiS> p(4); Nz::PrivateImpl<PiS, sizeof(PiS)> q(5); Nz::PrivateImpl<PiS> r(p); Put(23, p->n + 10 * q->n + 100 * r->n); }
#endif
#ifdef NZV_Result
static void UseResult() { Nz::Result<int, const char*> r = Nz::Ok(3); Nz::Result<void, int> e = Nz::Err(4); Put(24, r.GetValue() + 10 * e.GetError() + 100 * r.IsOk()); }
#endif
#ifdef NZV_Signal
namespace
{
	struct SiS { NazaraSignal(OnEvent, int); NazaraStaticSignal(OnAny, SiS*, int); };
	NazaraStaticSignalImpl(SiS, OnAny);
	struct SiT { NazaraSlot(SiS, OnEvent, onEvent); };
}
static void UseSignal()
{
	Nz::Signal<int> s;
	int n = 0;
	{
		SiS sender;
		SiT receiver;
		receiver.onEvent.Connect(sender.OnEvent, [&n](int x) { n += 100 * x; });
		sender.OnEvent(2);
		auto any = SiS::OnAny.Connect([&n](SiS*, int x) { n += 1000 * x; });
		SiS::OnAny(&sender, 3);
		any.Disconnect();
	}
 	auto c = s.Connect([&n](int x) { n += x; });
	s(4);
	c.Disconnect();
	s(5);
	Put(25, n);
}
#endif
#ifdef NZV_SparsePtr
static void UseSparsePtr() { int a[6] = { 0, 1, 2, 3, 4, 5 }; Nz::SparsePtr<int> p(a, 8); Put(26, p[2] + 10 * *(p + 1)); }
#endif
#ifdef NZV_StackArray
static void UseStackArray() { Nz::StackArray<int> a = NazaraStackArray(int, 3); a.fill(2); Put(27, a[2] + 10 * long(a.size())); }
#endif
#ifdef NZV_StackVector
static void UseStackVector() { Nz::StackVector<int> a = NazaraStackVector(int, 3); a.push_back(7); Put(28, a[0] + 10 * long(a.size()) + 100 * long(a.capacity())); }
#endif
#ifdef NZV_StringHash
static void UseStringHash() { Nz::StringHash<> h; Put(29, h("abc") == h(std::string("abc"))); }
#endif
#ifdef NZV_StringUtils
static void UseStringUtils() { auto u = Nz::ToUtf8String(std::string("ab")); Put(30, long(u.size()) + 10 * long(Nz::FromUtf8String(u).size())); }
#endif
#ifdef NZV_TypeList
static void UseTypeList() { using L = Nz::TypeListAppend<Nz::TypeList<int, char>, double>; Put(31, long(Nz::TypeListSize<L>) + 10 * Nz::TypeListHas<L, char>); }
#endif
#ifdef NZV_TypeName
static void UseTypeName() { Put(32, long(Nz::TypeName<int>().size())); }
#endif
#ifdef NZV_TypeTag
static void UseTypeTag() { Put(33, long(sizeof(typename Nz::TypeTag<int>::Type))); }
#endif
#ifdef NZV_TypeTraits
namespace { struct TtI; }
static void UseTypeTraits() { Put(34, Nz::IsComplete<int>::value + 10 * Nz::IsComplete<TtI>::value + 100 * long(sizeof(Nz::RemoveCvRef_t<const short&>))); }
#endif

#define NZV_C2(a, b) a##b
#define NZV_C(a, b) NZV_C2(a, b)
// header and value of every use
extern "C" int NZV_C(unit, NZV_TU)(const int** headers, const int** vals)
{
	count = 0;
#include NZV_CALLS
	*headers = names;
	*vals = values;
	return count;
}
