#include "tuples.hpp"
void tuples1(Rng& rng) { one<std::pair<int, int>, true>(rng); }
void tuples2(Rng& rng);
void tuples3(Rng& rng);
void tuples4(Rng& rng);
void tuples5(Rng& rng);
void tuplesCase(Rng& rng) { tuples1(rng); tuples2(rng); tuples3(rng); tuples4(rng); tuples5(rng); }
