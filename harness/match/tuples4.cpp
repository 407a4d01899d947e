#include "tuples.hpp"
void tuples4(Rng& rng) { one<std::tuple<std::tuple<int>>>(rng); one<std::optional<int>>(rng); one<std::variant<int, std::string>>(rng); }
