#include "printers.hpp"
void printers1(Rng& rng)
{
	one<Tag>(rng);
	one<Fmt>(rng);
	one<Plain>(rng);
	one<std::u8string>(rng);
	one<std::vector<short>>(rng);
	one<Box<std::vector<Colour>>>(rng);
	one<std::set<Fmt>>(rng);
	one<std::vector<std::optional<long>>>(rng);
	one<std::optional<Bag>>(rng);
	one<std::map<int, std::vector<Box<Fmt>>>>(rng);
	one<std::tuple<std::u8string, Plain, std::pair<unsigned long, Name>>>(rng);
}
