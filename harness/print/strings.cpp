#include "ref.hpp"
template <typename C> static void arrays(Rng& r)
{
	C a[6]{}; const int n = r.below(6); for (int i = 0; i < n; ++i) a[i] = static_cast<C>(1 + r.below(120));
	const std::string want = ref::str<C>(a, static_cast<std::size_t>(n));
	checkText<C*>(mm::print(a), want, "array");
	checkText<C*>(mm::print(std::as_const(a)), want, "const array");
}
void stringsCase(Rng& r)
{
	one<std::string>(r); one<std::string_view>(r); one<const char*>(r); one<char*>(r); one<UserStr>(r);
	one<std::wstring>(r); one<std::u8string>(r); one<std::u16string>(r); one<std::u32string>(r);
	one<const wchar_t*>(r); one<const char8_t*>(r); one<const char16_t*>(r); one<const char32_t*>(r);
	arrays<char>(r); arrays<wchar_t>(r); arrays<char8_t>(r); arrays<char16_t>(r); arrays<char32_t>(r);
	checkText<char*>(mm::print("literal {} \"x\""), "\"literal {} \"x\"\"", "literal");
	distinctTexts<std::string>(r); distinctTexts<std::wstring>(r); distinctTexts<std::u8string>(r); distinctTexts<std::u16string>(r); distinctTexts<std::u32string>(r); distinctTexts<UserStr>(r);
}
