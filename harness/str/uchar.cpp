#include "str.hpp"
void strUChar(const std::string& m, long n, Rng& r) { strCase<unsigned char, false, false>(m, n, r); }
void strSChar(const std::string& m, long n, Rng& r) { strCase<signed char, false, false>(m, n, r); }
