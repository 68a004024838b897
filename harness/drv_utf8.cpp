// UTF-8 conversions of strings and paths through every overload of the standard in use.
#include "nzv.hpp"
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <string>
#include <string_view>

using namespace nzv;
using Bytes = std::vector<int>;

template<typename S> static Bytes Read(const S& s)
{
	Bytes b;
	for (auto c : s)
		b.push_back(int(static_cast<unsigned char>(c)));
	return b;
}

template<typename R, typename S> static void Result(const char* dir, const char* form, R r, S& src, bool clobber = true)
{
	constexpr bool view = std::is_same_v<R, std::string_view>
#if __cplusplus >= 202002L
		|| std::is_same_v<R, std::u8string_view>
#endif
		;
	Ev e("Convert");
	e.s("dir", dir).s("form", form).s("kind", view ? "view" : "own").arr("src", Read(src)).arr("r", Read(r));
	if constexpr (view)
		e.b("same", static_cast<const void*>(r.data()) == static_cast<const void*>(src.data()));
	else
	{
		if (clobber)
			for (auto& c : src)
				c = 'x';
		e.arr("again", Read(r));
	}
	e.emit();
}

static void Convert(const std::string& text)
{
#if __cplusplus >= 202002L
	const std::u8string u8(reinterpret_cast<const char8_t*>(text.data()), text.size());
	{ std::u8string s = u8; Result("from", "pointer", Nz::FromUtf8String(s.c_str()), s); }
	{ std::u8string s = u8; Result("from", "string", Nz::FromUtf8String(s), s); }
	{ std::u8string s = u8; Result("from", "view", Nz::FromUtf8String(std::u8string_view(s)), s); }
	{ std::u8string s = u8; Result("both", "string", Nz::ToUtf8String(Nz::FromUtf8String(s)), s); }
	{ std::u8string s = u8; Result("both", "view", Nz::ToUtf8String(Nz::FromUtf8String(std::u8string_view(s))), s); }
#else
	{ std::string s = text; Result("from", "pointer", Nz::FromUtf8String(s.c_str()), s); }
	{ std::string s = text; Result("from", "string", Nz::FromUtf8String(s), s); }
	{ std::string s = text; Result("from", "view", Nz::FromUtf8String(std::string_view(s)), s); }
	{ std::string s = text; std::string t = text; Result("from", "string", Nz::FromUtf8String(std::move(t)), s); }
#endif
	{ std::string s = text; Result("to", "pointer", Nz::ToUtf8String(s.c_str()), s); }
	{ std::string s = text; Result("to", "string", Nz::ToUtf8String(s), s); }
	{ std::string s = text; Result("to", "view", Nz::ToUtf8String(std::string_view(s)), s); }
	{ std::string s = text; Result("both", "string", Nz::FromUtf8String(Nz::ToUtf8String(s)), s); }
	{ std::string s = text; Result("both", "view", Nz::FromUtf8String(Nz::ToUtf8String(std::string_view(s))), s); }
	// a view of a part of a longer text
	{
		std::string s = "<" + text + ">";
		std::string_view part = std::string_view(s).substr(1, text.size());
		Result("to", "view", Nz::ToUtf8String(part), part, false);
		std::string_view none;
		(void) Nz::ToUtf8String(none);
	}
}

static void Run(const std::vector<Op>& script, const std::string&)
{
	std::string text;
	std::filesystem::path path;
	for (const Op& op : script)
	{
		if (op.name == "Begin")
		{
			text.clear();
			path = std::filesystem::path();
			Ev("Begin").emit();
		}
		else if (op.name == "Hold")
		{
			text.clear();
			for (ll c : op.list("s"))
				text.push_back(char(c));
			Ev("Hold").arr("s", Read(text)).emit();
			Convert(text);
		}
		else if (op.name == "MakePath" || op.name == "JoinPath")
		{
			if (op.name == "MakePath")
				path = Nz::Utf8Path(text);
			else
			{
				// a view that does not end at a zero
				std::string longer = text + "tail";
				path /= Nz::Utf8Path(std::string_view(longer).substr(0, text.size()));
			}
			Ev(op.name).arr("native", Read(path.native())).emit();
			std::string r = Nz::PathToString(path);
			Ev("PathText").arr("r", Read(r)).b("back", Nz::Utf8Path(r) == path).arr("native", Read(path.native())).emit();
		}
	}
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
