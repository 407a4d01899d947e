#include "tuples.hpp"
void tuples2(Rng& rng) { one<std::tuple<int>, true>(rng); }
