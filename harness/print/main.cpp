#include "ref.hpp"
int main(int argc, char** argv)
{
	return proto::run(argc, argv, [](long, std::uint64_t seed)
	{
		Rng r{seed}; g_fp = 7;
		const auto& p = proto::g_profile;
		if (p == "scalars") scalarsCase(r); else if (p == "strings") stringsCase(r); else if (p == "nested") nestedCase(r); else if (p == "nested2") nested2Case(r); else oddCase(r);
		proto::distinct(g_fp);
		Arena a; g_arena = &a; Rng s{seed};
		proto::sample(p + ": e.g. " + mm::print(gen<std::vector<std::tuple<int, std::optional<std::string>>>>(s)));
	});
}
