#include "str.hpp"
void strU16(const std::string& m, long n, Rng& r) { strCase<char16_t, false, false>(m, n, r); }
void strU32(const std::string& m, long n, Rng& r) { strCase<char32_t, false, false>(m, n, r); }
