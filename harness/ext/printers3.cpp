#include "printers.hpp"
void printers3(Rng& rng)
{
	one<Bag>(rng);
	one<Pt>(rng);
	one<Tag*>(rng);
	one<std::pair<int, char>>(rng);
	one<Box<Box<int>>>(rng);
	one<std::list<Bag>>(rng);
	one<std::array<Pt, 2>>(rng);
	one<std::optional<Tag>>(rng);
	one<std::tuple<int, Colour, std::optional<long>>>(rng);
	one<std::vector<Tag*>>(rng);
}
