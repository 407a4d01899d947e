#include "tuples.hpp"
void tuples5(Rng& rng) { one<std::array<int, 2>>(rng); one<std::vector<std::pair<int, int>>>(rng); one<std::optional<std::tuple<int, int>>>(rng); }
