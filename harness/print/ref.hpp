// C12: printing, against an independent reference printer; and value generators for nested types.
#pragma once
#include "mimic++/mimic++.hpp"
#include "../common/loc.hpp"
#include "../common/proto.hpp"
#include <any>
#include <array>
#include <charconv>
#include <cmath>
#include <deque>
#include <filesystem>
#include <forward_list>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <tuple>
#include <variant>
#include <vector>

namespace mm = mimicpp;
using proto::fail; using proto::stat; using proto::Rng;

// ---- user types
struct Opaque { int v; bool operator==(const Opaque&) const = default; auto operator<=>(const Opaque&) const = default; };
enum class Scoped { a, b }; enum Plain { pa, pb };
struct User { int v; bool operator==(const User&) const = default; auto operator<=>(const User&) const = default; };           // has a custom printer
struct Fmt { int v; bool operator==(const Fmt&) const = default; auto operator<=>(const Fmt&) const = default; };              // has a std::formatter
struct Both { int v; bool operator==(const Both&) const = default; auto operator<=>(const Both&) const = default; };           // has both: custom wins
struct FmtRange : std::vector<int> { using std::vector<int>::vector; };                                                        // formatter and range: range wins
struct UserRange : std::vector<int> { using std::vector<int>::vector; };                                                       // custom printer and range: custom wins
struct Special { int v; bool operator==(const Special&) const = default; };                                                    // containers of it have custom printers
struct UserStr { std::string s; bool operator==(const UserStr&) const = default; };                                            // user string type via string_traits
struct Uncopyable { int v; explicit Uncopyable(int x) : v{x} {} Uncopyable(const Uncopyable&) = delete; };
struct AbstractBase { virtual ~AbstractBase() = default; virtual int f() const = 0; };
struct Derived final : AbstractBase { int f() const override { return 1; } };

template <> struct mimicpp::custom::Printer<User> { template <typename O> static O print(O o, const User& u) { return mm::format::format_to(std::move(o), "User<{}>", u.v); } };
template <> struct mimicpp::custom::Printer<Both> { template <typename O> static O print(O o, const Both& u) { return mm::format::format_to(std::move(o), "Both<{}>", u.v); } };
template <> struct mimicpp::custom::Printer<UserRange> { template <typename O> static O print(O o, const UserRange& u) { return mm::format::format_to(std::move(o), "UserRange of {}", u.size()); } };
template <> struct mimicpp::custom::Printer<std::vector<Special>> { template <typename O> static O print(O o, const std::vector<Special>& u) { return mm::format::format_to(std::move(o), "specials:{}", u.size()); } };
template <> struct mimicpp::custom::Printer<std::optional<Special>> { template <typename O> static O print(O o, const std::optional<Special>& u) { return mm::format::format_to(std::move(o), "maybe special:{}", u ? u->v : -1); } };
#ifdef MIMICPP_CONFIG_USE_FMT
namespace backend = fmt;
#else
namespace backend = std;
#endif
template <> struct backend::formatter<Fmt, char> { constexpr auto parse(auto& c) { return c.begin(); } auto format(const Fmt& f, auto& c) const { return backend::format_to(c.out(), "Fmt<{}>", f.v); } };
template <> struct backend::formatter<Both, char> { constexpr auto parse(auto& c) { return c.begin(); } auto format(const Both& f, auto& c) const { return backend::format_to(c.out(), "wrong<{}>", f.v); } };
template <> struct backend::formatter<FmtRange, char> { constexpr auto parse(auto& c) { return c.begin(); } auto format(const FmtRange& f, auto& c) const { return backend::format_to(c.out(), "wrong<{}>", f.size()); } };
template <> struct mimicpp::string_traits<UserStr> { using char_t = char; using string_t = std::string; [[nodiscard]] static std::string_view view(const UserStr& u) { return u.s; } };

// ---- the reference
namespace ref
{
	template <typename T> struct is_opt : std::false_type {}; template <typename T> struct is_opt<std::optional<T>> : std::true_type {};
	template <typename T> struct is_tup : std::false_type {}; template <typename... T> struct is_tup<std::tuple<T...>> : std::true_type {}; template <typename A, typename B> struct is_tup<std::pair<A, B>> : std::true_type {};
	template <typename T> struct char_of { using type = void; };
	template <typename C, typename A> struct char_of<std::basic_string<C, std::char_traits<C>, A>> { using type = C; };
	template <typename C> struct char_of<std::basic_string_view<C>> { using type = C; };
	template <typename C> inline constexpr bool is_char = std::is_same_v<C, char> || std::is_same_v<C, wchar_t> || std::is_same_v<C, char8_t> || std::is_same_v<C, char16_t> || std::is_same_v<C, char32_t>;
	template <typename C> requires (is_char<std::remove_cv_t<C>>) struct char_of<C*> { using type = std::remove_cv_t<C>; };
	template <typename C, std::size_t n> requires (is_char<std::remove_cv_t<C>>) struct char_of<C[n]> { using type = std::remove_cv_t<C>; };
	template <typename T> using char_of_t = typename char_of<T>::type;

	inline std::string hex(unsigned long long v, int width, bool trim)
	{
		std::string r; const char* d = "0123456789abcdef";
		for (int i = width - 1; i >= 0; --i) { const int x = static_cast<int>((v >> (4 * i)) & 15); if (trim && x == 0 && i > 0 && r.empty()) continue; r += d[x]; }
		return r;
	}
	template <typename C> std::string str(const C* p, std::size_t n)
	{
		std::string r;
		if constexpr (std::is_same_v<C, wchar_t>) r = "L"; else if constexpr (std::is_same_v<C, char8_t>) r = "u8"; else if constexpr (std::is_same_v<C, char16_t>) r = "u"; else if constexpr (std::is_same_v<C, char32_t>) r = "U";
		r += '"';
		for (std::size_t i = 0; i < n; ++i)
			if constexpr (std::is_same_v<C, char>) r += p[i];
			else r += (i ? ", 0x" : "0x") + hex(static_cast<unsigned long long>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<C, wchar_t>, int, C>>>(p[i])), 8, true);
		return r + '"';
	}
	template <typename T> std::string text(const T& v);
	template <typename R> std::string list(R& r) { std::string s = "{ "; bool f = true; for (auto&& x : r) { if (!f) s += ", "; f = false; s += text(x); } return s + " }"; }
	template <typename T> std::string text(const T& v)
	{
		using D = std::remove_cv_t<T>;
		if constexpr (std::is_same_v<D, User>) return "User<" + std::to_string(v.v) + ">";
		else if constexpr (std::is_same_v<D, Both>) return "Both<" + std::to_string(v.v) + ">";
		else if constexpr (std::is_same_v<D, Fmt>) return "Fmt<" + std::to_string(v.v) + ">";
		else if constexpr (std::is_same_v<D, UserRange>) return "UserRange of " + std::to_string(v.size());
		else if constexpr (std::is_same_v<D, std::vector<Special>>) return "specials:" + std::to_string(v.size());
		else if constexpr (std::is_same_v<D, std::optional<Special>>) return "maybe special:" + std::to_string(v ? v->v : -1);
		else if constexpr (std::is_same_v<D, UserStr>) return '"' + v.s + '"';
		else if constexpr (std::is_same_v<D, std::filesystem::path> || std::is_same_v<D, std::vector<bool>::reference> && false) return "{?}";
		else if constexpr (std::is_same_v<D, bool>) return v ? "true" : "false";
		else if constexpr (std::is_same_v<D, char>) return std::string(1, v);
		else if constexpr (is_char<D>) { if constexpr (std::is_default_constructible_v<backend::formatter<D, char>>) return backend::format("{}", v); else return "{?}"; }
		else if constexpr (std::is_integral_v<D>) return std::to_string(v);
		else if constexpr (std::is_floating_point_v<D>)
		{
			if (std::isnan(v)) return std::signbit(v) ? "-nan" : "nan";
			char b[8000]; const auto r = std::to_chars(b, b + sizeof b, v); return std::string(b, r.ptr);
		}
		else if constexpr (!std::is_void_v<char_of_t<D>>)
		{
			using C = char_of_t<D>;
			if constexpr (std::is_pointer_v<D>) { if (!v) return "nullptr"; return str<C>(v, std::char_traits<C>::length(v)); }
			else if constexpr (std::is_array_v<D>) return str<C>(v, std::char_traits<C>::length(v));
			else return str<C>(v.data(), v.size());
		}
		else if constexpr (std::is_same_v<D, std::nullptr_t>) return "0x" + hex(0, 16, false);
		else if constexpr (std::is_pointer_v<D>) { std::uintptr_t p; std::memcpy(&p, &v, sizeof p); return "0x" + hex(p, 16, false); }
		else if constexpr (std::is_same_v<D, std::nullopt_t>) return "nullopt";
		else if constexpr (is_opt<D>::value) return v ? "{ value: " + text(*v) + " }" : "nullopt";
		else if constexpr (is_tup<D>::value)
			return std::apply([](const auto&... x) { std::string s = "{ "; bool f = true; ((s += (f ? "" : ", ") + text(x), f = false), ...); return s + " }"; }, v);
		else if constexpr (std::is_same_v<D, std::source_location>) return std::string(v.file_name()) + "[" + std::to_string(v.line()) + ":" + std::to_string(v.column()) + "], " + v.function_name();
		else if constexpr (std::is_same_v<D, std::vector<bool>>) { std::string s = "{ "; bool f = true; for (bool x : v) { if (!f) s += ", "; f = false; s += x ? "true" : "false"; } return s + " }"; }
		else if constexpr (std::ranges::forward_range<const D>) return list(v);
		else return "{?}";
	}
}

// ---- generators
struct Arena { std::deque<std::string> strs; std::deque<std::vector<char>> exact; std::deque<std::vector<int>> ints; std::deque<int> obj; std::deque<std::u8string> u8; std::deque<std::wstring> w; std::deque<std::u16string> u16; std::deque<std::u32string> u32; };
inline Arena* g_arena;
template <typename T> T gen(Rng& r);
template <typename T> struct Gen;
template <typename T> T gen(Rng& r) { return Gen<T>::make(r); }
template <typename T> requires std::is_integral_v<T> struct Gen<T> { static T make(Rng& r)
{
	if constexpr (std::is_same_v<T, bool>) return r.chance(50);
	else switch (r.below(6)) { case 0: return std::numeric_limits<T>::min(); case 1: return std::numeric_limits<T>::max(); case 2: return T(0); case 3: return static_cast<T>(r.next()); default: return static_cast<T>(r.below(200) - 100); }
} };
template <typename T> requires std::is_floating_point_v<T> struct Gen<T> { static T make(Rng& r)
{
	using L = std::numeric_limits<T>;
	switch (r.below(10)) { case 0: return T(0); case 1: return T(-0.0); case 2: return L::infinity(); case 3: return -L::infinity(); case 4: return L::quiet_NaN(); case 5: return L::denorm_min(); case 6: return L::max(); case 7: return L::lowest(); case 8: return T(r.below(1000)) / T(7); default: return T(static_cast<std::int64_t>(r.next())) * T(1e-5); }
} };
template <typename C> std::basic_string<C> genStr(Rng& r)
{
	std::basic_string<C> s; const int n = r.chance(15) ? 0 : r.chance(90) ? r.below(6) : 40 + r.below(60);
	static const char odd[] = "\"{}\\,% \n\t:#";
	for (int i = 0; i < n; ++i) s.push_back(r.chance(40) ? C(odd[r.below(11)]) : r.chance(15) ? static_cast<C>(r.next()) : r.chance(10) ? C{} : C('a' + r.below(26)));
	return s;
}
template <typename C> struct Gen<std::basic_string<C>> { static std::basic_string<C> make(Rng& r) { return genStr<C>(r); } };
template <> struct Gen<std::string_view> { static std::string_view make(Rng& r) { const auto s = genStr<char>(r); g_arena->exact.emplace_back(s.begin(), s.end()); g_arena->exact.back().shrink_to_fit(); return {g_arena->exact.back().data(), s.size()}; } };
template <> struct Gen<const char*> { static const char* make(Rng& r) { if (r.chance(20)) return nullptr; g_arena->strs.push_back(genStr<char>(r)); return g_arena->strs.back().c_str(); } };
template <> struct Gen<char*> { static char* make(Rng& r) { if (r.chance(20)) return nullptr; g_arena->strs.push_back(genStr<char>(r)); return g_arena->strs.back().data(); } };
template <> struct Gen<const wchar_t*> { static const wchar_t* make(Rng& r) { if (r.chance(20)) return nullptr; g_arena->w.push_back(genStr<wchar_t>(r)); return g_arena->w.back().c_str(); } };
template <> struct Gen<const char8_t*> { static const char8_t* make(Rng& r) { if (r.chance(20)) return nullptr; g_arena->u8.push_back(genStr<char8_t>(r)); return g_arena->u8.back().c_str(); } };
template <> struct Gen<const char16_t*> { static const char16_t* make(Rng& r) { if (r.chance(20)) return nullptr; g_arena->u16.push_back(genStr<char16_t>(r)); return g_arena->u16.back().c_str(); } };
template <> struct Gen<const char32_t*> { static const char32_t* make(Rng& r) { if (r.chance(20)) return nullptr; g_arena->u32.push_back(genStr<char32_t>(r)); return g_arena->u32.back().c_str(); } };
template <> struct Gen<std::nullptr_t> { static std::nullptr_t make(Rng&) { return nullptr; } };
template <> struct Gen<const int*> { static const int* make(Rng& r) { if (r.chance(30)) return nullptr; g_arena->obj.push_back(3); return &g_arena->obj.back(); } };
template <> struct Gen<void*> { static void* make(Rng& r) { return r.chance(30) ? nullptr : reinterpret_cast<void*>(static_cast<std::uintptr_t>(r.next())); } };
template <> struct Gen<const void*> { static const void* make(Rng& r) { return Gen<void*>::make(r); } };
template <> struct Gen<Opaque*> { static Opaque* make(Rng& r) { return static_cast<Opaque*>(Gen<void*>::make(r)); } };
inline int someFunction(int x) { return x; }
template <> struct Gen<int (*)(int)> { static auto make(Rng& r) -> int (*)(int) { return r.chance(30) ? nullptr : &someFunction; } };
template <> struct Gen<Opaque> { static Opaque make(Rng& r) { return {r.below(9)}; } };
template <> struct Gen<Scoped> { static Scoped make(Rng& r) { return static_cast<Scoped>(r.below(2)); } };
template <> struct Gen<Plain> { static Plain make(Rng& r) { return static_cast<Plain>(r.below(2)); } };
template <> struct Gen<std::byte> { static std::byte make(Rng& r) { return static_cast<std::byte>(r.below(256)); } };
template <> struct Gen<User> { static User make(Rng& r) { return {r.between(-5, 50)}; } };
template <> struct Gen<Fmt> { static Fmt make(Rng& r) { return {r.between(-5, 50)}; } };
template <> struct Gen<Both> { static Both make(Rng& r) { return {r.between(-5, 50)}; } };
template <> struct Gen<Special> { static Special make(Rng& r) { return {r.between(0, 50)}; } };
template <> struct Gen<UserStr> { static UserStr make(Rng& r) { return {genStr<char>(r)}; } };
template <typename T> requires (std::is_same_v<T, FmtRange> || std::is_same_v<T, UserRange>) struct Gen<T> { static T make(Rng& r) { T v; for (int i = r.below(4); i > 0; --i) v.push_back(r.below(100)); return v; } };
template <> struct Gen<std::filesystem::path> { static std::filesystem::path make(Rng& r) { return r.chance(30) ? std::filesystem::path{} : std::filesystem::path{"/a/b/" + std::string(static_cast<std::size_t>(r.below(3)), 'x')}; } };
template <> struct Gen<std::source_location> { static std::source_location make(Rng& r) { const int k = r.below(20); return k == 0 ? std::source_location::current() : k == 1 ? std::source_location{} : testloc::odd(k); } };
template <> struct Gen<std::variant<int, std::string>> { static std::variant<int, std::string> make(Rng& r) { if (r.chance(50)) return r.below(9); return genStr<char>(r); } };
template <> struct Gen<std::monostate> { static std::monostate make(Rng&) { return {}; } };
template <> struct Gen<std::any> { static std::any make(Rng& r) { if (r.chance(50)) return {}; return r.below(4); } };
template <> struct Gen<std::nullopt_t> { static std::nullopt_t make(Rng&) { return std::nullopt; } };
template <typename T> struct Gen<std::shared_ptr<T>> { static std::shared_ptr<T> make(Rng& r) { if (r.chance(40)) return {}; return std::make_shared<T>(gen<T>(r)); } };
template <typename T> struct Gen<std::optional<T>> { static std::optional<T> make(Rng& r) { if (r.chance(35)) return {}; return gen<T>(r); } };
template <typename A, typename B> struct Gen<std::pair<A, B>> { static std::pair<A, B> make(Rng& r) { return {gen<A>(r), gen<B>(r)}; } };
template <typename... A> struct Gen<std::tuple<A...>> { static std::tuple<A...> make([[maybe_unused]] Rng& r) { return std::tuple<A...>{gen<A>(r)...}; } };
template <typename T, std::size_t n> struct Gen<std::array<T, n>> { static std::array<T, n> make([[maybe_unused]] Rng& r) { return [&]<std::size_t... i>(std::index_sequence<i...>) { return std::array<T, n>{((void)i, gen<T>(r))...}; }(std::make_index_sequence<n>{}); } };
template <typename V, typename T> V genSeq(Rng& r) { V v; for (int i = r.chance(25) ? 0 : r.below(5); i > 0; --i) v.insert(v.end(), gen<T>(r)); return v; }
template <typename T> struct Gen<std::vector<T>> { static std::vector<T> make(Rng& r) { return genSeq<std::vector<T>, T>(r); } };
template <typename T> struct Gen<std::list<T>> { static std::list<T> make(Rng& r) { return genSeq<std::list<T>, T>(r); } };
template <typename T> struct Gen<std::deque<T>> { static std::deque<T> make(Rng& r) { return genSeq<std::deque<T>, T>(r); } };
template <typename T> struct Gen<std::set<T>> { static std::set<T> make(Rng& r) { return genSeq<std::set<T>, T>(r); } };
template <typename T> struct Gen<std::forward_list<T>> { static std::forward_list<T> make(Rng& r) { std::forward_list<T> v; for (int i = r.below(4); i > 0; --i) v.push_front(gen<T>(r)); return v; } };
template <typename K, typename V> struct Gen<std::map<K, V>> { static std::map<K, V> make(Rng& r) { std::map<K, V> m; for (int i = r.below(4); i > 0; --i) { K k = gen<K>(r); m.emplace(std::move(k), gen<V>(r)); } return m; } };
template <> struct Gen<std::span<const int>> { static std::span<const int> make(Rng& r) { g_arena->ints.push_back(gen<std::vector<int>>(r)); g_arena->ints.back().shrink_to_fit(); return g_arena->ints.back(); } };

template <typename T> struct HasLoc : std::is_same<T, std::source_location> {};
template <template <typename...> typename C, typename... A> struct HasLoc<C<A...>> : std::disjunction<HasLoc<A>...> {};
template <typename T> consteval bool comparable() { if constexpr (HasLoc<T>::value || std::is_same_v<T, std::nullopt_t>) return false; else return std::equality_comparable<T> && std::copy_constructible<T>; }
template <typename T> inline constexpr bool canCompare = comparable<T>();
inline std::uint64_t g_fp;
template <typename T> void checkText(const std::string& got, const std::string& want, const char* how)
{
	if (got != want) fail("C12", std::string{"printing a "} + typeid(T).name() + " (" + how + ") yields " + proto::quoted(got.substr(0, 300)) + " instead of " + proto::quoted(want.substr(0, 300)));
	++stat("texts");
}
inline std::string& mockText() { static std::string s; return s; }
template <typename T> void viaCall(const T& v, const std::string& want)
{
	// the text users see: the argument as listed in a call report
	mm::call::Info<void, const T&> info{.args = {v}, .fromCategory = mm::ValueCategory::any, .fromConstness = mm::Constness::any};
	const auto rep = mm::make_call_report(info);
	checkText<T>(rep.argDetails.at(0).stateString, want, "in a call report");
}
// prints one value in all ways
template <typename T> void one(Rng& r)
{
	Arena arena; g_arena = &arena;
	T v = gen<T>(r);
	const std::string want = ref::text(v);
	if (want.find("0x") == std::string::npos && want.find(".hpp[") == std::string::npos) g_fp = g_fp * 1099511628211ull + proto::fnv(want); // neither addresses nor function names
	std::optional<std::conditional_t<canCompare<T>, T, int>> copy;
	if constexpr (canCompare<T>) copy.emplace(v);
	checkText<T>(mm::print(v), want, "lvalue");
	checkText<T>(mm::print(std::as_const(v)), want, "const lvalue");
	checkText<T>(mm::print(v), want, "second time");
	std::string out = "pre";
	mm::print(std::back_inserter(out), v);
	checkText<T>(out, "pre" + want, "through an iterator");
	viaCall(v, want);
	if constexpr (canCompare<T>) if (!(*copy == v) && *copy == *copy) fail("C12", std::string{"printing modified the value of a "} + typeid(T).name());
	if constexpr (std::copy_constructible<T>) { T tmp{v}; checkText<T>(mm::print(std::move(tmp)), want, "rvalue"); }
	if (want.find("{?}") == std::string::npos && want != "{  }") ++stat("nontrivial_texts");
}
// differing scalars and strings print differently
// a value which is hard to tell from the given one
template <typename T> T near(const T& a, Rng& r)
{
	if constexpr (requires(T s) { s.push_back(s.back()); s.erase(s.begin()); })
	{
		using C = typename T::value_type; T b = a; const std::size_t n = b.size();
		const std::size_t i = n ? static_cast<std::size_t>(r.below(static_cast<int>(n))) : 0;
		switch (r.below(8))
		{
		case 0: b.push_back(C{}); break;
		case 1: if (n) b.pop_back(); break;
		case 2: if (n) b.resize(i); break;
		case 3: if (n) b[i] = C{}; break;
		case 4: if (n) b[i] = static_cast<C>(b[i] ^ static_cast<C>(C(1) << (sizeof(C) * 8 - 1))); break;
		case 5: if (n) b.insert(b.begin() + static_cast<std::ptrdiff_t>(i), C('"')); break;
		case 6: if (n) b.erase(b.begin() + static_cast<std::ptrdiff_t>(i)); break;
		default: if (n > 1) std::swap(b[i], b[n - 1]); break;
		}
		return b;
	}
	else return gen<T>(r);
}
template <typename T> void distinctTexts(Rng& r)
{
	Arena arena; g_arena = &arena;
	const T a = gen<T>(r), b = r.chance(60) ? near(a, r) : gen<T>(r);
	bool same = a == b;
	if constexpr (std::is_floating_point_v<T>) same = same ? std::signbit(a) == std::signbit(b) : std::isnan(a) && std::isnan(b);
	if ((mm::print(a) == mm::print(b)) != same) fail("C12", std::string{"two values of "} + typeid(T).name() + (same ? " which are equal print differently: " : " which differ print alike: ") + proto::quoted(mm::print(a)) + " " + proto::quoted(mm::print(b)));
	++stat("pairs");
}
void scalarsCase(Rng&); void stringsCase(Rng&); void nestedCase(Rng&); void nested2Case(Rng&); void oddCase(Rng&);
