#include "grid.hpp"
void valuesCase(long no, Rng& rng)
{
	switch (no % 4)
	{
	case 0: valueGrid<true, int, int>(rng); break;
	case 1: valueGrid<false, double, double>(rng); break;
	case 2: valueGrid<true, std::string, std::string>(rng); break;
	default: for (int i = 0; i < 50; ++i) valueCase<true, int, int>(rng.below(6), static_cast<int>(rng.next()), static_cast<int>(rng.next())); break;
	}
}
