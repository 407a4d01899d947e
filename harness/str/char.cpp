#include "str.hpp"
void strChar(const std::string& m, long n, Rng& r) { strCase<char, true, true>(m, n, r); }
