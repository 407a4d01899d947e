#include "match.hpp"
int main(int argc, char** argv)
{
	mm::install_reporter<Quiet>();
	return proto::run(argc, argv, [](long no, std::uint64_t seed)
	{
		Rng rng{seed};
		g_hash = 7; g_true = g_false = 0;
		const auto& p = proto::g_profile;
		if (p == "values") { if (no % 2) values2Case(no / 2, rng); else valuesCase(no / 2, rng); }
		else if (p == "objects") objectsCase(rng);
		else if (p == "args") argsCase(rng);
		else if (p == "tuples") tuplesCase(rng);
		else if (p == "nested") nestedCase(rng);
		else if (p == "ranges2") range2Case(rng);
		else rangeCase(rng);
		stat("answers_true") += g_true; stat("answers_false") += g_false;
		if (g_true && g_false) proto::distinct(g_hash);
		else if (p == "args") proto::distinct(seed);
		proto::sample("case " + std::to_string(no) + ": last matcher asked: " + g_what + ", " + std::to_string(g_true) + " accepted / " + std::to_string(g_false) + " rejected");
	});
}
