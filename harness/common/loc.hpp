// Source locations with chosen contents (libstdc++: a source_location is one pointer to this record).
#pragma once
#include <bit>
#include <deque>
#include <source_location>
#include <string_view>
namespace testloc
{
	struct Impl { const char* file; const char* function; unsigned line; unsigned column; };
	static_assert(sizeof(std::source_location) == sizeof(const Impl*));
	inline std::source_location at(unsigned line)
	{
		static std::deque<Impl> all; // indexed by line - 100000
		while (all.size() <= line - 100000u) all.push_back(Impl{"some/file.cpp", "some_function", 100000u + static_cast<unsigned>(all.size()), 7u});
		const Impl* p = &all[line - 100000u];
		return std::bit_cast<std::source_location>(p);
	}
	// unusual ones: boundary values, names which look like format strings, empty names
	constexpr int oddCount = 12;
	inline std::source_location odd(int i)
	{
		static const Impl all[oddCount] = {
			{"a.cpp", "f", 1, 1}, {"a.cpp", "f", 1, 2}, {"a.cpp", "f", 2, 1}, {"a.cpp", "g", 1, 1},
			{"dir with space/b{}.cpp", "void f(T) [T = {0}]", 255, 256}, {"dir/%s%n.cpp", "auto lambda::operator()(auto)", 256, 255}, {"", "", 4294967295u, 4294967295u}, {"C:\\path\\c.cpp", "f", 65535, 65536},
			{"c.cpp", "f", 65536, 65537}, {"c.cpp", "f", 32767, 32768}, {"c.cpp", "f", 2147483648u, 127}, {"c.cpp", "f", 128, 2147483647u}};
		const Impl* p = &all[i % oddCount];
		return std::bit_cast<std::source_location>(p);
	}
	inline bool same(const std::source_location& a, const std::source_location& b)
	{
		return a.line() == b.line() && a.column() == b.column() && std::string_view{a.file_name()} == b.file_name() && std::string_view{a.function_name()} == b.function_name();
	}
}
