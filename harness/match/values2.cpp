#include "grid.hpp"
void values2Case(long no, Rng& rng)
{
	switch (no % 6)
	{
	case 0: valueGrid<false, int, long long>(rng); break;
	case 1: valueGrid<false, float, double>(rng); break;
	case 2: valueGrid<false, int, unsigned>(rng); break;
	case 3: valueGrid<false, double, int>(rng); break;
	case 4: valueGrid<false, std::string, std::string_view>(rng); break;
	default: valueGrid<false, unsigned char, int>(rng); break;
	}
}
