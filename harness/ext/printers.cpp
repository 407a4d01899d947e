#include "printers.hpp"
static void printersCase(Rng& rng)
{
	g_hash = 3; g_printed = 0;
	printers1(rng); printers2(rng); printers3(rng);
	// move-only
	Only o{rng.below(100)};
	same(mm::print(o), expText(o), "print of a move-only value"); same(mm::print(std::as_const(o)), expText(o), "print of a move-only value");
	inReport<const Only&>(o, expText(o), "move-only argument"); inReport<Only&>(o, expText(o), "move-only argument"); inReport<Only&&>(o, expText(o), "move-only argument");
	same(M::eq(Only{3}).describe(), "== only3", "description with a move-only value");
	same(mm::print(std::source_location::current()), "@" + std::to_string(__LINE__) + "@", "print of a location");
	if (!g_printed) fail("C20", "no printer of the user ran");
	stat("user_printer_runs") += g_printed;
	proto::distinct(g_hash);
	proto::sample("values of 31 types with printers of the user, among them " + expText(o));
}
int main(int argc, char** argv)
{
	mm::install_reporter<Rec>();
	return proto::run(argc, argv, [](long, std::uint64_t seed) { Rng rng{seed}; Rec::evs.clear(); printersCase(rng); });
}
