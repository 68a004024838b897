// Bit and byte utilities on a register of one type (config: type name).
// NZV_GEN names a generated header of NZV_CT(type, value) lines: registers evaluated at compile time.
#include "nzv.hpp"
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <array>
#include <type_traits>

using namespace nzv;
using ull = unsigned long long;

template<typename T> ull Raw(T v)
{
	if constexpr (std::is_floating_point_v<T>)
	{
		ull r = 0;
		std::memcpy(&r, &v, sizeof(T));
		return r;
	}
	else
		return static_cast<ull>(static_cast<std::make_unsigned_t<T>>(v));
}

template<typename T> T FromRaw(ull v)
{
	T r;
	std::memcpy(&r, &v, sizeof(T));
	return r;
}

template<typename T> constexpr unsigned Wid = sizeof(T) * 8;

template<typename T> std::vector<int> BitsOf(T v)
{
	std::vector<int> r(Wid<T>);
	for (unsigned n = 0; n < Wid<T>; ++n)
		r[n] = int((Raw(v) >> n) & 1u);
	return r;
}

template<typename T> void Begin(const char* when)
{
	Ev("Begin").i("w", Wid<T>).b("sg", std::is_signed_v<T>).s("when", when).emit();
}

#ifdef NZV_CT_BUILD

template<typename T> struct Row
{
	std::size_t count = 0;
	unsigned first = 0, last = 0;
	std::array<bool, Wid<T>> tests{};
	std::array<T, Wid<T>> set{}, clr{}, tog{}, asrI{}, asrU{};
	T rev{}, swap{}, be{}, le{}, hbe{}, hle{};
};

template<typename T> constexpr Row<T> MakeRow(T v)
{
	Row<T> r;
	r.count = Nz::CountBits(v);
	r.first = Nz::FindFirstBit(v);
	r.last = Nz::FindLastBit(v);
	for (unsigned k = 0; k < Wid<T>; ++k)
	{
		r.tests[k] = Nz::TestBit(v, T(k));
		r.set[k] = Nz::SetBit(v, T(k));
		r.clr[k] = Nz::ClearBit(v, T(k));
		r.tog[k] = Nz::ToggleBit(v, T(k));
		r.asrI[k] = Nz::ArithmeticRightShift(v, int(k));
		r.asrU[k] = Nz::ArithmeticRightShift(v, std::size_t(k));
	}
	r.rev = Nz::ReverseBits(v);
	r.swap = Nz::ByteSwap(v);
	r.be = Nz::BigEndianToHost(v);
	r.le = Nz::LittleEndianToHost(v);
	r.hbe = Nz::HostToBigEndian(v);
	r.hle = Nz::HostToLittleEndian(v);
	return r;
}

template<typename T> void EmitRow(T v, const Row<T>& r)
{
	auto load = [&] { Ev("Load").arr("v", BitsOf(v)).emit(); };
	load();
	Ev("Look").sz("count", r.count).i("first", r.first).i("last", r.last).arr("tests", r.tests).arr("v", BitsOf(v)).emit();
	Ev("Endian").arr("be", BitsOf(r.be)).arr("le", BitsOf(r.le)).arr("hbe", BitsOf(r.hbe)).arr("hle", BitsOf(r.hle)).arr("v", BitsOf(v)).emit();
	Ev("Reverse").arr("v", BitsOf(r.rev)).emit(); load();
	Ev("Swap").arr("v", BitsOf(r.swap)).emit(); load();
	for (unsigned k = 0; k < Wid<T>; ++k)
	{
		Ev("Set").i("k", k).arr("v", BitsOf(r.set[k])).emit(); load();
		Ev("Clear").i("k", k).arr("v", BitsOf(r.clr[k])).emit(); load();
		Ev("Toggle").i("k", k).arr("v", BitsOf(r.tog[k])).emit(); load();
		Ev("Asr").i("k", k).arr("v", BitsOf(r.asrI[k])).emit(); load();
		Ev("Asr").i("k", k).arr("v", BitsOf(r.asrU[k])).emit(); load();
	}
}

#define NZV_CT(type, value) { constexpr type v = static_cast<type>(value); constexpr Row<type> row = MakeRow<type>(v); Begin<type>("constant"); EmitRow<type>(v, row); }
#if __cplusplus >= 202002L
#define NZV_CTF(type, itype, value) { constexpr type v = std::bit_cast<type>(itype(value)); constexpr itype s = std::bit_cast<itype>(Nz::ByteSwap(v)); \
	Begin<type>("constant"); Ev("Load").arr("v", BitsOf(v)).emit(); Ev("Swap").arr("v", BitsOf(s)).emit(); }
#else
#define NZV_CTF(type, itype, value)
#endif

static void Run(const std::vector<Op>&, const std::string&)
{
#include NZV_GEN
}

#else

template<typename T, typename S> T Shift(T v, unsigned k)
{
	return Nz::ArithmeticRightShift(v, static_cast<S>(k));
}

// inputs reach the calls through volatile objects: nothing is folded at compile time
template<typename T> T Hide(T v)
{
	volatile T h = v;
	return h;
}

template<typename T> void RunType(const std::vector<Op>& script)
{
	T v{};
	for (const Op& op : script)
	{
		SetDuring(Describe(op));
		unsigned k = unsigned(Mod(op.get("k"), Wid<T>));
		v = Hide(v);
		if (op.name == "Begin") { v = T{}; Begin<T>("run"); }
		else if (op.name == "Load") { v = FromRaw<T>(Wide(op, "v")); Ev("Load").arr("v", BitsOf(v)).emit(); }
		else if (op.name == "Swap") { v = Nz::ByteSwap(v); Ev("Swap").arr("v", BitsOf(v)).emit(); }
		else if (op.name == "Endian")
		{
			auto be = Nz::BigEndianToHost(v);
			auto le = Nz::LittleEndianToHost(v);
			auto hbe = Nz::HostToBigEndian(v);
			auto hle = Nz::HostToLittleEndian(v);
			Ev("Endian").arr("be", BitsOf(be)).arr("le", BitsOf(le)).arr("hbe", BitsOf(hbe)).arr("hle", BitsOf(hle)).arr("v", BitsOf(v)).emit();
		}
		else if (op.name == "SwapBuf")
		{
			std::vector<ll> m = op.list("m");
			std::vector<Nz::UInt8> buf(m.size());
			for (std::size_t i = 0; i < m.size(); ++i)
				buf[i] = Nz::UInt8(m[i]);
			std::vector<Nz::UInt8> before = buf;
			std::size_t off = Mod(op.get("off"), buf.size() + 1);
			std::size_t n = Mod(op.get("n"), buf.size() - off + 1);
			// exact-size allocation: a byte too far is a sanitizer report
			Nz::SwapBytes(buf.data() + off, n);
			Ev("SwapBuf").arr("before", before).sz("off", off).sz("n", n).arr("after", buf).arr("v", BitsOf(v)).emit();
		}
		else if constexpr (std::is_integral_v<T>)
		{
			T kb = Hide(T(k));
			if (op.name == "Set") { v = Nz::SetBit(v, kb); Ev("Set").i("k", k).arr("v", BitsOf(v)).emit(); }
			else if (op.name == "Clear") { v = Nz::ClearBit(v, kb); Ev("Clear").i("k", k).arr("v", BitsOf(v)).emit(); }
			else if (op.name == "Toggle") { v = Nz::ToggleBit(v, kb); Ev("Toggle").i("k", k).arr("v", BitsOf(v)).emit(); }
			else if (op.name == "Reverse") { v = Nz::ReverseBits(v); Ev("Reverse").arr("v", BitsOf(v)).emit(); }
			else if (op.name == "Asr")
			{
				unsigned h = Hide(k);
				switch (op.get("how", 0))
				{
					case 0: v = Shift<T, int>(v, h); break;
					case 1: v = Shift<T, unsigned>(v, h); break;
					case 2: v = Shift<T, std::size_t>(v, h); break;
					case 3: v = Shift<T, Nz::Int8>(v, h); break;
					case 4: v = Shift<T, Nz::Int64>(v, h); break;
					default: v = Shift<T, Nz::UInt8>(v, h); break;
				}
				Ev("Asr").i("k", k).arr("v", BitsOf(v)).emit();
			}
			else if (op.name == "Look")
			{
				std::vector<int> tests;
				std::size_t count = Nz::CountBits(v);
				unsigned first = Nz::FindFirstBit(v);
				unsigned last = Nz::FindLastBit(v);
				for (unsigned n = 0; n < Wid<T>; ++n)
					tests.push_back(Nz::TestBit(v, Hide(T(n))) ? 1 : 0);
				Ev("Look").sz("count", count).i("first", first).i("last", last).arr("tests", tests).arr("v", BitsOf(v)).emit();
			}
		}
	}
}

static void Run(const std::vector<Op>& script, const std::string& cfg)
{
	if (cfg == "i8") RunType<Nz::Int8>(script);
	else if (cfg == "u8") RunType<Nz::UInt8>(script);
	else if (cfg == "i16") RunType<Nz::Int16>(script);
	else if (cfg == "u16") RunType<Nz::UInt16>(script);
	else if (cfg == "i32") RunType<Nz::Int32>(script);
	else if (cfg == "u32") RunType<Nz::UInt32>(script);
	else if (cfg == "i64") RunType<Nz::Int64>(script);
	else if (cfg == "u64") RunType<Nz::UInt64>(script);
	else if (cfg == "char") RunType<char>(script);
	else if (cfg == "ll") RunType<long long>(script);
	else if (cfg == "ull") RunType<unsigned long long>(script);
	else if (cfg == "wchar") RunType<wchar_t>(script);
	else if (cfg == "c16") RunType<char16_t>(script);
	else if (cfg == "f32") RunType<float>(script);
	else if (cfg == "f64") RunType<double>(script);
}

#endif

int main(int argc, char** argv)
{
	return Main(argc, argv, Run);
}
