#include "str.hpp"
void strWide(const std::string& m, long n, Rng& r) { strCase<wchar_t, false, false>(m, n, r); }
void strU8(const std::string& m, long n, Rng& r) { strCase<char8_t, false, false>(m, n, r); }
