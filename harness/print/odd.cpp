#include "ref.hpp"
#include <sstream>
// views, arrays, non-copyable and polymorphic objects, ranges which can only be walked while mutable, input ranges
void oddCase(Rng& r)
{
	Arena arena; g_arena = &arena;
	const std::vector<int> v = gen<std::vector<int>>(r);
	int arr[3]{gen<int>(r), gen<int>(r), gen<int>(r)};
	checkText<int[]>(mm::print(arr), "{ " + std::to_string(arr[0]) + ", " + std::to_string(arr[1]) + ", " + std::to_string(arr[2]) + " }", "array");
	std::string sarr[2]{gen<std::string>(r), gen<std::string>(r)};
	checkText<int[]>(mm::print(sarr), "{ \"" + sarr[0] + "\", \"" + sarr[1] + "\" }", "array of strings");
	const auto twice = v | std::views::transform([](int x) { return static_cast<long>(x) * 2; });
	std::vector<long> tv; for (int x : v) tv.push_back(static_cast<long>(x) * 2);
	checkText<decltype(twice)>(mm::print(twice), ref::text(tv), "transform view");
	auto even = v | std::views::filter([](int x) { return x % 2 == 0; });
	std::vector<int> ev; for (int x : v) if (x % 2 == 0) ev.push_back(x);
	checkText<decltype(even)>(mm::print(even), ref::text(ev), "filter view");
	checkText<decltype(even)>(mm::print(std::as_const(even)), "{?}", "const filter view");
	const int n = r.below(5);
	std::vector<int> iv; for (int i = 0; i < n; ++i) iv.push_back(i);
	checkText<int>(mm::print(std::views::iota(0, n)), ref::text(iv), "iota");
	checkText<int>(mm::print(std::views::iota(0) | std::views::take(n)), ref::text(iv), "take");
	checkText<int>(mm::print(std::views::empty<int>), "{  }", "empty view");
	checkText<int>(mm::print(std::views::single(7)), "{ 7 }", "single view");
	checkText<int>(mm::print(v | std::views::reverse), ref::text(std::vector<int>(v.rbegin(), v.rend())), "reverse view");
	std::istringstream in{"1 2 3"};
	auto is = std::views::istream<int>(in);
	checkText<int>(mm::print(is), "{?}", "input range");
	int next = 0; in >> next; if (next != 1) fail("C12", "printing consumed elements of an input range");
	const Uncopyable u{3}; checkText<Uncopyable>(mm::print(u), "{?}", "non-copyable");
	const Derived d; const AbstractBase& b = d; checkText<AbstractBase>(mm::print(b), "{?}", "abstract");
	checkText<std::unique_ptr<int>>(mm::print(std::make_unique<int>(3)), "{?}", "unique_ptr");
	int x = 5; checkText<int>(mm::print(std::tuple<int&, const std::string&>{x, sarr[0]}), "{ 5, \"" + sarr[0] + "\" }", "tuple of references");
	const auto here = std::source_location::current(); checkText<int>(mm::print(here), ref::text(here), "location");
	std::vector<std::vector<std::vector<int>>> deep(1); for (int i = r.below(4); i > 0; --i) deep[0].push_back(gen<std::vector<int>>(r)); checkText<int>(mm::print(deep), ref::text(deep), "deep");
	std::vector<int> big(static_cast<std::size_t>(r.chance(10) ? 3000 : 20)); for (int& e : big) e = r.below(100000); checkText<int>(mm::print(big), ref::text(big), "long");
	const std::string huge(static_cast<std::size_t>(r.chance(10) ? 100000 : 100), 'h'); checkText<int>(mm::print(huge), '"' + huge + '"', "long string");
	using namespace mimicpp;
	checkText<int>(mm::print(ValueCategory::lvalue) + mm::print(ValueCategory::rvalue) + mm::print(ValueCategory::any), "lvaluervalueany", "value category");
	checkText<int>(mm::print(Constness::non_const) + mm::print(Constness::as_const) + mm::print(Constness::any), "mutableconstany", "constness");
	g_fp = g_fp * 31 + proto::fnv(ref::text(v));
}
