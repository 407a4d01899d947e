#include "ref.hpp"
void nested2Case(Rng& r)
{
	one<std::tuple<>>(r); one<std::tuple<int>>(r); one<std::tuple<int, std::string, double>>(r); one<std::pair<int, int>>(r); one<std::pair<std::string, std::optional<int>>>(r); one<std::tuple<std::tuple<>, std::tuple<int, bool>>>(r);
	one<std::tuple<User, Opaque, const char*, void*, Scoped>>(r); one<std::tuple<std::vector<int>, std::vector<std::pair<int, std::string>>>>(r); one<std::vector<std::tuple<int, std::optional<std::string>>>>(r);
	one<std::array<int, 0>>(r); one<std::array<int, 1>>(r); one<std::array<int, 3>>(r); one<std::array<std::string, 2>>(r); one<std::array<std::array<User, 2>, 2>>(r); one<std::array<char, 4>>(r);
	one<std::optional<std::tuple<int, User>>>(r); one<std::optional<std::pair<std::optional<int>, std::optional<int>>>>(r); one<std::map<int, std::map<int, std::optional<User>>>>(r);
	one<std::vector<std::u8string>>(r); one<std::vector<std::wstring>>(r); one<std::pair<std::source_location, int>>(r); one<std::vector<UserStr>>(r); one<std::tuple<std::filesystem::path, std::string>>(r); one<std::tuple<std::vector<bool>, bool>>(r);
	one<std::list<std::deque<std::set<int>>>>(r); one<std::vector<std::array<std::optional<bool>, 2>>>(r); one<std::tuple<FmtRange, UserRange, Both, Fmt>>(r);
}
