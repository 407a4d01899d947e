// A program of its own: the printers for types of the standard library must be visible wherever such values are printed.
// User-supplied printers, wherever values are printed: directly, nested, in call reports and in descriptions of matchers.
#pragma once
#include "ext.hpp"
#include <array>
#include <optional>

struct Tag { int v; friend auto operator<=>(const Tag&, const Tag&) = default; };                    // otherwise printed as {?}
enum class Colour { red, green, blue };
struct Bag { std::vector<int> v; auto begin() const { return v.begin(); } auto end() const { return v.end(); } friend auto operator<=>(const Bag&, const Bag&) = default; };  // a range
struct Fmt { int v; friend auto operator<=>(const Fmt&, const Fmt&) = default; };                     // formattable
struct Name { std::string s; friend auto operator<=>(const Name&, const Name&) = default; };           // a string type
template <typename T> struct Box { T inner; friend auto operator<=>(const Box&, const Box&) = default; };
struct Pt { int x, y; friend auto operator<=>(const Pt&, const Pt&) = default; };                     // tuple-like
struct Only { int v; explicit Only(int i) : v{i} {} Only(Only&&) = default; Only& operator=(Only&&) = default; friend bool operator==(const Only&, const Only&) = default; };
struct Plain { int v; friend auto operator<=>(const Plain&, const Plain&) = default; };                // no printer: {?}
template <> struct std::tuple_size<Pt> : std::integral_constant<std::size_t, 2> {};
template <> struct std::tuple_element<0, Pt> { using type = int; };
template <> struct std::tuple_element<1, Pt> { using type = int; };
template <std::size_t I> int get(const Pt& p) { return I == 0 ? p.x : p.y; }
template <> struct mm::format::formatter<Fmt, char> : mm::format::formatter<int, char> { auto format(const Fmt& f, auto& ctx) const { return mm::format::formatter<int, char>::format(f.v + 1000, ctx); } };
template <> struct mm::string_traits<Name> { using char_t = char; using view_t = std::string_view; static view_t view(const Name& n) noexcept { return n.s; } };

inline long g_printed; inline std::uint64_t g_hash;
namespace { template <typename O> O put(O o, const std::string& s) { ++g_printed; for (char c : s) *o++ = c; return o; } }
template <> class mm::custom::Printer<Tag> { public: static auto print(auto o, const Tag& t) { return put(o, "<Tag " + std::to_string(t.v) + ">"); } };
template <> class mm::custom::Printer<Colour> { public: static auto print(auto o, Colour c) { return put(o, c == Colour::red ? "RED" : c == Colour::green ? "GREEN" : "BLUE"); } };
template <> class mm::custom::Printer<Bag> { public: static auto print(auto o, const Bag& b) { return put(o, "Bag of " + std::to_string(b.v.size())); } };
template <> class mm::custom::Printer<Fmt> { public: static auto print(auto o, const Fmt& f) { return put(o, "fmt-" + std::to_string(f.v)); } };
template <> class mm::custom::Printer<Name> { public: static auto print(auto o, const Name& n) { return put(o, "name:" + n.s); } };
template <typename T> class mm::custom::Printer<Box<T>> { public: static auto print(auto o, const Box<T>& b) { o = put(o, "Box["); o = mm::print(o, b.inner); return put(o, "]"); } };
template <> class mm::custom::Printer<Pt> { public: static auto print(auto o, const Pt& p) { return put(o, std::to_string(p.x) + "/" + std::to_string(p.y)); } };
template <> class mm::custom::Printer<Only> { public: static auto print(auto o, const Only& p) { return put(o, "only" + std::to_string(p.v)); } };
// library-known types whose printing is overridden
template <> class mm::custom::Printer<std::optional<long>> { public: static auto print(auto o, const std::optional<long>& v) { return put(o, v ? "just " + std::to_string(*v) : "nothing"); } };
template <> class mm::custom::Printer<std::pair<int, char>> { public: static auto print(auto o, const std::pair<int, char>& v) { return put(o, std::string(1, v.second) + std::to_string(v.first)); } };
template <> class mm::custom::Printer<std::vector<short>> { public: static auto print(auto o, const std::vector<short>& v) { return put(o, "shorts(" + std::to_string(v.size()) + ")"); } };
template <> class mm::custom::Printer<Tag*> { public: static auto print(auto o, const Tag* v) { return put(o, v ? "&Tag" : "no Tag"); } };
template <> class mm::custom::Printer<unsigned long> { public: static auto print(auto o, unsigned long v) { return put(o, std::to_string(v) + "ul"); } };
template <> class mm::custom::Printer<std::source_location> { public: static auto print(auto o, const std::source_location& l) { return put(o, "@" + std::to_string(l.line()) + "@"); } };
struct Str8 { std::u8string s; };
template <> class mm::custom::Printer<std::u8string> { public: static auto print(auto o, const std::u8string& s) { return put(o, "u8 of " + std::to_string(s.size())); } };

namespace
{
	// the expected texts, from the definitions
	std::string expText(int v) { return std::to_string(v); }
	std::string expText(unsigned long v) { return std::to_string(v) + "ul"; }
	std::string expText(short v) { return std::to_string(v); }
	std::string expText(bool v) { return v ? "true" : "false"; }
	std::string expText(const Tag& t) { return "<Tag " + std::to_string(t.v) + ">"; }
	std::string expText(Colour c) { return c == Colour::red ? "RED" : c == Colour::green ? "GREEN" : "BLUE"; }
	std::string expText(const Bag& b) { return "Bag of " + std::to_string(b.v.size()); }
	std::string expText(const Fmt& f) { return "fmt-" + std::to_string(f.v); }
	std::string expText(const Name& n) { return "name:" + n.s; }
	std::string expText(const Pt& p) { return std::to_string(p.x) + "/" + std::to_string(p.y); }
	std::string expText(const Only& p) { return "only" + std::to_string(p.v); }
	std::string expText(const Plain&) { return "{?}"; }
	std::string expText(const std::string& s) { return "\"" + s + "\""; }
	std::string expText(const std::u8string& s) { return "u8 of " + std::to_string(s.size()); }
	std::string expText(const std::optional<long>& v) { return v ? "just " + std::to_string(*v) : "nothing"; }
	std::string expText(const std::pair<int, char>& v) { return std::string(1, v.second) + std::to_string(v.first); }
	std::string expText(const std::vector<short>& v) { return "shorts(" + std::to_string(v.size()) + ")"; }
	std::string expText(Tag* v) { return v ? "&Tag" : "no Tag"; }
	template <typename T> std::string expText(const Box<T>&); template <typename T> std::string expText(const std::vector<T>&); template <typename T> std::string expText(const std::list<T>&); template <typename T> std::string expText(const std::optional<T>&);
	template <typename A, typename B> std::string expText(const std::pair<A, B>&); template <typename... A> std::string expText(const std::tuple<A...>&); template <typename K, typename V> std::string expText(const std::map<K, V>&); template <typename T> std::string expText(const std::set<T>&);
	template <typename T, std::size_t N> std::string expText(const std::array<T, N>&);
	template <typename R> std::string range(const R& r) { std::string s = "{ "; bool first = true; for (auto&& x : r) { if (!first) s += ", "; first = false; s += expText(x); } return s + " }"; }
	template <typename T> std::string expText(const Box<T>& b) { return "Box[" + expText(b.inner) + "]"; }
	template <typename T> std::string expText(const std::vector<T>& v) { return range(v); }
	template <typename T> std::string expText(const std::list<T>& v) { return range(v); }
	template <typename T> std::string expText(const std::set<T>& v) { return range(v); }
	template <typename K, typename V> std::string expText(const std::map<K, V>& v) { return range(v); }
	template <typename T> std::string expText(const std::optional<T>& o) { return o ? "{ value: " + expText(*o) + " }" : "nullopt"; }
	template <typename A, typename B> std::string expText(const std::pair<A, B>& p) { return "{ " + expText(p.first) + ", " + expText(p.second) + " }"; }
	template <typename... A> std::string expText(const std::tuple<A...>& t) { std::string s = "{ "; bool first = true; std::apply([&](auto&... x) { ((s += first ? "" : ", ", first = false, s += expText(x)), ...); }, t); return s + " }"; }
	template <typename T, std::size_t N> std::string expText(const std::array<T, N>& a) { std::string s = "{ "; for (std::size_t i = 0; i < N; ++i) s += (i ? ", " : "") + expText(a[i]); return s + " }"; }

	template <typename T> struct Make;
	template <typename T> T make(Rng& r) { return Make<T>::of(r); }
	template <> struct Make<int> { static int of(Rng& r) { return r.between(-5, 99); } };
	template <> struct Make<bool> { static bool of(Rng& r) { return r.chance(50); } };
	template <> struct Make<unsigned long> { static unsigned long of(Rng& r) { return static_cast<unsigned long>(r.below(100)); } };
	template <> struct Make<short> { static short of(Rng& r) { return static_cast<short>(r.below(100)); } };
	template <> struct Make<Tag> { static Tag of(Rng& r) { return {r.below(50)}; } };
	template <> struct Make<Colour> { static Colour of(Rng& r) { return static_cast<Colour>(r.below(3)); } };
	template <> struct Make<Bag> { static Bag of(Rng& r) { const auto n = static_cast<std::size_t>(r.below(4)); return {std::vector<int>(n, r.below(9))}; } };
	template <> struct Make<Fmt> { static Fmt of(Rng& r) { return {r.below(50)}; } };
	template <> struct Make<Name> { static Name of(Rng& r) { const auto n = static_cast<std::size_t>(r.below(4)); return {std::string(n, static_cast<char>('a' + r.below(26)))}; } };
	template <> struct Make<std::string> { static std::string of(Rng& r) { const auto n = static_cast<std::size_t>(r.below(4)); return std::string(n, static_cast<char>('a' + r.below(26))); } };
	template <> struct Make<std::u8string> { static std::u8string of(Rng& r) { return std::u8string(static_cast<std::size_t>(r.below(4)), u8'x'); } };
	template <> struct Make<Pt> { static Pt of(Rng& r) { const int x = r.below(9); return {x, r.below(9)}; } };
	template <> struct Make<Plain> { static Plain of(Rng& r) { return {r.below(9)}; } };
	template <> struct Make<char> { static char of(Rng& r) { return static_cast<char>('a' + r.below(26)); } };
	template <> struct Make<long> { static long of(Rng& r) { return r.below(1000); } };
	template <> struct Make<Tag*> { static Tag* of(Rng& r) { static Tag t{1}; return r.chance(50) ? &t : nullptr; } };
	template <typename T> struct Make<Box<T>> { static Box<T> of(Rng& r) { return {make<T>(r)}; } };
	template <typename T> struct Make<std::vector<T>> { static std::vector<T> of(Rng& r) { std::vector<T> v; for (int i = r.below(4); i > 0; --i) v.push_back(make<T>(r)); return v; } };
	template <typename T> struct Make<std::list<T>> { static std::list<T> of(Rng& r) { std::list<T> v; for (int i = r.below(4); i > 0; --i) v.push_back(make<T>(r)); return v; } };
	template <typename T> struct Make<std::set<T>> { static std::set<T> of(Rng& r) { std::set<T> v; for (int i = r.below(4); i > 0; --i) v.insert(make<T>(r)); return v; } };
	template <typename T> struct Make<std::optional<T>> { static std::optional<T> of(Rng& r) { if (r.chance(30)) return {}; return make<T>(r); } };
	template <typename A, typename B> struct Make<std::pair<A, B>> { static std::pair<A, B> of(Rng& r) { A a = make<A>(r); return {std::move(a), make<B>(r)}; } };
	template <typename... A> struct Make<std::tuple<A...>> { static std::tuple<A...> of(Rng& r) { return std::tuple<A...>{make<A>(r)...}; } };
	template <typename K, typename V> struct Make<std::map<K, V>> { static std::map<K, V> of(Rng& r) { std::map<K, V> m; for (int i = r.below(4); i > 0; --i) { K k = make<K>(r); m.emplace(std::move(k), make<V>(r)); } return m; } };
	template <typename T, std::size_t N> struct Make<std::array<T, N>> { static std::array<T, N> of(Rng& r) { std::array<T, N> a{}; for (auto& x : a) x = make<T>(r); return a; } };

	void same(const std::string& got, const std::string& want, const char* how) { if (got != want) fail("C20,C12", std::string(how) + ": printed as " + proto::quoted(got) + " instead of " + proto::quoted(want)); ++stat("prints"); }
	template <typename P, typename T> void inReport(T& value, const std::string& text, const char* how)
	{
		Rec::evs.clear();
		{
			mm::Mock<void(int, P, int)> mock{};
			bool rejected = false;
			try { if constexpr (std::is_rvalue_reference_v<P>) mock(1, std::move(value), 2); else mock(1, static_cast<P>(value), 2); } catch (const Rejected&) { rejected = true; }
			if (!rejected || Rec::evs.size() != 1) fail("C20", "an unexpected call is not reported");
			same(Rec::evs[0].call[0].argDetails.at(1).stateString, text, how);
			const auto all = mm::print(Rec::evs[0].call[0]);
			if (!has(all, "value: " + text + "\n")) fail("C20,C13", std::string(how) + ": the text of the call report lacks the user's text " + text + ": " + all);
			if (!has(all, "@" + std::to_string(Rec::evs[0].call[0].fromLoc.line()) + "@")) fail("C20,C13", "the printer of the user for source locations is not used in a call report: " + all);
		}
	}
	template <typename T> void one(Rng& rng)
	{
		T v = make<T>(rng);
		const std::string text = expText(v);
		g_hash = proto::fnv(text, g_hash);
		same(mm::print(v), text, "print");
		same(mm::print(std::as_const(v)), text, "print of a const value");
		{ T copy{v}; same(mm::print(std::move(copy)), text, "print of an rvalue"); }
		{ std::string out = "x"; mm::print(std::back_inserter(out), v); same(out, "x" + text, "print to an iterator"); }
		inReport<T>(v, text, "by-value argument"); inReport<const T&>(v, text, "const reference argument"); inReport<T&>(v, text, "reference argument"); inReport<T&&>(v, text, "rvalue reference argument");
		if constexpr (!mm::string<T>)
		{
			same(M::eq(v).describe(), "== " + text, "description of eq"); same((!M::eq(v)).describe(), "!= " + text, "description of !eq");
			if constexpr (requires { v < v; }) { same(M::lt(v).describe(), "< " + text, "description of lt"); }
			const auto each = M::range::each_element(M::eq(v));
			same(each.describe(), "each el in range: el == " + text, "description of each_element");
		}
		else { same(M::str::eq(v).describe(), "is equal to " + text, "description of str::eq"); same((!M::str::contains(v)).describe(), "contains not " + text, "description of !str::contains"); }
		same(M::range::eq(std::vector<T>{v, v}).describe(), "elements are { " + text + ", " + text + " }", "description of range::eq");
		same(mm::PredicateMatcher{[](auto&&, auto&&) { return true; }, "is {}", "is not {}", std::tuple<T>{v}}.describe(), "is " + text, "description of predicate");
		// the expectation that does not accept the call, and the unfulfilled one
		Rec::evs.clear();
		{
			mm::Mock<void(const T&, int)> mock{};
			const unsigned line = __LINE__ + 1;
			mm::ScopedExpectation e = mock.expect_call(v, 1) and mm::expect::at_least(1);
			try { mock(v, 2); fail("C20", "a call is accepted although an argument differs"); } catch (const Rejected&) {}
			const auto t = mm::print(Rec::evs.at(0).all.at(0));
			if (!has(t, text)) fail("C20,C13", "the text of a rejecting expectation lacks the user's text " + text + ": " + t);
			if (!has(t, "@" + std::to_string(line) + "@")) fail("C20,C13", "the printer of the user for source locations is not used for an expectation: " + t);
		}
		const auto t = mm::print(Rec::evs.at(1).exp.at(0));
		if (!has(t, text)) fail("C20,C13", "the text of an unfulfilled expectation lacks the user's text " + text + ": " + t);
		if (!has(t, "from: @")) fail("C20,C13", "the printer of the user for source locations is not used for an unfulfilled expectation: " + t);
	}
}
void printers1(Rng&);
void printers2(Rng&);
void printers3(Rng&);
