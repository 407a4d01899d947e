#include "tuples.hpp"
void tuples3(Rng& rng) { one<std::tuple<int, std::string>>(rng); one<std::pair<std::string, std::pair<int, int>>>(rng); one<std::tuple<>>(rng); }
