#include "printers.hpp"
void printers2(Rng& rng)
{
	one<Colour>(rng);
	one<Name>(rng);
	one<unsigned long>(rng);
	one<std::optional<long>>(rng);
	one<Box<Tag>>(rng);
	one<std::vector<Tag>>(rng);
	one<std::vector<Name>>(rng);
	one<std::vector<std::pair<int, char>>>(rng);
	one<std::pair<Tag, std::vector<short>>>(rng);
	one<std::map<Name, std::optional<Pt>>>(rng);
}
