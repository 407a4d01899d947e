#include "str.hpp"
#include <cctype>
// <cctype> requires values of unsigned char or EOF: observe what the library really passes
static long g_ctype = 0;
static void checkCtype(const char* fn, int c) { ++g_ctype; if (c < -1 || c > 255) fail("C11", std::string{"undefined behaviour: "} + fn + "(" + std::to_string(c) + ")"); }
extern "C" int toupper(int c) noexcept { checkCtype("toupper", c); return c >= 'a' && c <= 'z' ? c - 32 : c; }
extern "C" int tolower(int c) noexcept { checkCtype("tolower", c); return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" int isupper(int c) noexcept { checkCtype("isupper", c); return c >= 'A' && c <= 'Z'; }
extern "C" int islower(int c) noexcept { checkCtype("islower", c); return c >= 'a' && c <= 'z'; }
extern "C" int isalpha(int c) noexcept { checkCtype("isalpha", c); return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

void installQuiet();
int main(int argc, char** argv)
{
	installQuiet();
	return proto::run(argc, argv, [](long no, std::uint64_t seed)
	{
		Rng rng{seed};
		g_hash = 7; g_true = g_false = 0;
		const auto& p = proto::g_profile;
		const auto dash = p.find('-');
		const std::string type = p.substr(0, dash), mode = dash == std::string::npos ? "" : p.substr(dash + 1);
		if (type == "char") strChar(mode, no, rng);
		else if (type == "wchar") strWide(mode, no, rng);
		else if (type == "u8") strU8(mode, no, rng);
		else if (type == "u16") strU16(mode, no, rng);
		else if (type == "u32") strU32(mode, no, rng);
		else if (type == "uchar") strUChar(mode, no, rng);
		else if (type == "schar") strSChar(mode, no, rng);
		else mockCase(rng);
		stat("answers_true") += g_true; stat("answers_false") += g_false; stat("ctype_calls_checked") = g_ctype;
		if ((g_true && g_false) || type == "mock") proto::distinct(g_hash ^ seed);
		proto::sample("case " + std::to_string(no) + ": " + std::to_string(g_true) + " accepted / " + std::to_string(g_false) + " rejected; last pair: " + g_last);
	});
}
