#include "ref.hpp"
void scalarsCase(Rng& r)
{
	one<bool>(r); one<char>(r); one<signed char>(r); one<unsigned char>(r); one<short>(r); one<unsigned short>(r); one<int>(r); one<unsigned>(r); one<long>(r); one<unsigned long long>(r);
	one<float>(r); one<double>(r); one<long double>(r);
	one<wchar_t>(r); one<char8_t>(r); one<char16_t>(r); one<char32_t>(r);
	one<std::nullptr_t>(r); one<const int*>(r); one<void*>(r); one<const void*>(r); one<Opaque*>(r); one<int (*)(int)>(r);
	one<Opaque>(r); one<Scoped>(r); one<Plain>(r); one<std::byte>(r); one<User>(r); one<Fmt>(r); one<Both>(r); one<FmtRange>(r); one<UserRange>(r);
	one<std::filesystem::path>(r); one<std::source_location>(r); one<std::variant<int, std::string>>(r); one<std::monostate>(r); one<std::any>(r); one<std::shared_ptr<int>>(r); one<std::nullopt_t>(r);
	distinctTexts<int>(r); distinctTexts<signed char>(r); distinctTexts<unsigned char>(r); distinctTexts<bool>(r); distinctTexts<unsigned long long>(r); distinctTexts<long>(r); distinctTexts<char>(r);
	distinctTexts<float>(r); distinctTexts<double>(r); distinctTexts<long double>(r); distinctTexts<void*>(r); distinctTexts<std::optional<int>>(r);
}
