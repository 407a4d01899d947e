#include "ref.hpp"
void nestedCase(Rng& r)
{
	one<std::optional<int>>(r); one<std::optional<std::string>>(r); one<std::optional<std::optional<int>>>(r); one<std::optional<std::vector<int>>>(r); one<std::optional<User>>(r); one<std::optional<Opaque>>(r); one<std::optional<const char*>>(r); one<std::optional<Special>>(r);
	one<std::vector<int>>(r); one<std::vector<bool>>(r); one<std::vector<std::string>>(r); one<std::vector<const char*>>(r); one<std::vector<std::vector<int>>>(r); one<std::vector<std::optional<double>>>(r); one<std::vector<User>>(r); one<std::vector<Opaque>>(r); one<std::vector<Special>>(r);
	one<std::vector<std::vector<Special>>>(r); one<std::vector<std::filesystem::path>>(r); one<std::vector<char>>(r); one<std::vector<wchar_t>>(r);
	one<std::list<Fmt>>(r); one<std::deque<float>>(r); one<std::set<std::string>>(r); one<std::forward_list<int>>(r); one<std::map<int, std::string>>(r); one<std::map<std::string, std::vector<int>>>(r); one<std::span<const int>>(r);
	one<std::vector<std::shared_ptr<int>>>(r); one<std::vector<std::variant<int, std::string>>>(r);
}
