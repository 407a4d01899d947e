// User-supplied string and character types.
#include "ext.hpp"
struct Text { std::string s; };                                                    // user string of char
struct Ch { signed char c{}; friend bool operator==(const Ch&, const Ch&) = default; };   // user character: printer, prefix and folding
struct Line { std::vector<Ch> s; };
struct Raw { unsigned short c{}; friend bool operator==(const Raw&, const Raw&) = default; };  // user character: nothing but the trait
struct Tape { std::vector<Raw> s; };
template <> struct mm::is_character<Ch> : std::true_type {};
template <> struct mm::is_character<Raw> : std::true_type {};
template <> struct mm::string_traits<Text> { using char_t = char; using view_t = std::string_view; static view_t view(const Text& t) noexcept { return t.s; } };
template <> struct mm::string_traits<Line> { using char_t = Ch; using view_t = std::span<const Ch>; static view_t view(const Line& t) noexcept { return t.s; } };
template <> struct mm::string_traits<Tape> { using char_t = Raw; using view_t = std::span<const Raw>; static view_t view(const Tape& t) noexcept { return t.s; } };
template <> inline constexpr mm::StringViewT mm::string_literal_prefix<Ch>{"ch"};
template <> class mm::custom::Printer<Ch> { public: static auto print(auto o, const Ch& c) { *o++ = '.'; *o++ = static_cast<char>(c.c); return o; } };
// folding of the user changes lengths: '#' is an abbreviation of "++", upper case is ignored
template <> struct mm::string_case_fold_converter<Ch>
{
	std::vector<Ch> operator()(std::span<const Ch> v) const { std::vector<Ch> r; for (const Ch c : v) { if (c.c == '#') { r.push_back(Ch{'+'}); r.push_back(Ch{'+'}); } else if (c.c >= 'A' && c.c <= 'Z') r.push_back(Ch{static_cast<signed char>(c.c - 'A' + 'a')}); else r.push_back(c); } return r; }
};
template <> struct mm::string_case_fold_converter<Raw>
{
	auto operator()(std::span<const Raw> v) const { return v | std::views::transform([](const Raw r) { return Raw{static_cast<unsigned short>(r.c & 0xff)}; }); }
};
namespace
{
	using Seq = std::vector<int>;
	std::uint64_t g_hash; int g_true, g_false;
	bool at(const Seq& t, const Seq& p, std::size_t o) { if (o + p.size() > t.size()) return false; for (std::size_t i = 0; i < p.size(); ++i) if (t[o + i] != p[i]) return false; return true; }
	bool oracle(int op, const Seq& t, const Seq& p)
	{
		if (op == 0) return t == p;
		if (op == 1) return at(t, p, 0);
		if (op == 2) return p.size() <= t.size() && at(t, p, t.size() - p.size());
		for (std::size_t o = 0; o + p.size() <= t.size(); ++o) if (at(t, p, o)) return true;
		return false;
	}
	Seq foldChar(const Seq& s) { Seq r = s; for (int& c : r) if (c >= 'a' && c <= 'z') c += 'A' - 'a'; return r; }
	Seq foldCh(const Seq& s) { Seq r; for (int c : s) if (c == '#') { r.push_back('+'); r.push_back('+'); } else r.push_back(c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c); return r; }
	Seq foldRaw(const Seq& s) { Seq r = s; for (int& c : r) c &= 0xff; return r; }
	template <typename S> S mk(const Seq& s)
	{
		S r;
		for (int c : s) { if constexpr (std::same_as<S, Text>) r.s.push_back(static_cast<char>(c)); else if constexpr (std::same_as<S, Line>) r.s.push_back(Ch{static_cast<signed char>(c)}); else if constexpr (std::same_as<S, Tape>) r.s.push_back(Raw{static_cast<unsigned short>(c)}); else r.push_back(static_cast<char>(c)); }
		return r;
	}
	template <typename S> std::string text(const Seq& s)
	{
		std::string r;
		if constexpr (std::same_as<S, Text> || std::same_as<S, std::string>) { for (int c : s) r += static_cast<char>(c); return "\"" + r + "\""; }
		else if constexpr (std::same_as<S, Line>) { for (int c : s) { r += '.'; r += static_cast<char>(c); } return "ch\"" + r + "\""; }
		else { for (std::size_t i = 0; i < s.size(); ++i) { char b[16]; std::snprintf(b, sizeof b, "%s0x%x", i ? ", " : "", static_cast<unsigned>(s[i])); r += b; } return "\"" + r + "\""; }
	}
	const char* const names[] = {"eq", "starts_with", "ends_with", "contains"};
	template <typename P> auto make(int op, bool ci, P p, auto&& f)
	{
		switch (op * 2 + ci)
		{
		case 0: return f(M::str::eq(std::move(p))); case 1: return f(M::str::eq(std::move(p), mm::case_insensitive));
		case 2: return f(M::str::starts_with(std::move(p))); case 3: return f(M::str::starts_with(std::move(p), mm::case_insensitive));
		case 4: return f(M::str::ends_with(std::move(p))); case 5: return f(M::str::ends_with(std::move(p), mm::case_insensitive));
		case 6: return f(M::str::contains(std::move(p))); default: return f(M::str::contains(std::move(p), mm::case_insensitive));
		}
	}
	template <typename T, typename P> void pairCase(Rng& rng, const Seq& t, const Seq& p, Seq (*fold)(const Seq&))
	{
		const int op = rng.below(4); const bool ci = rng.chance(50);
		const bool want = ci ? oracle(op, fold(t), fold(p)) : oracle(op, t, p);
		(want ? g_true : g_false)++; g_hash = g_hash * 31 + static_cast<unsigned>(want * 8 + op * 2 + ci);
		const std::string what = std::string("str::") + names[op] + (ci ? " (case-insensitive)" : "") + " of " + text<P>(p) + " for " + text<T>(t);
		T target = mk<T>(t);
		make(op, ci, mk<P>(p), [&](auto m)
		{
			for (int i = 0; i < 2; ++i)
			{
				if (m.matches(target) != want || m.matches(std::as_const(target)) != want) fail("C20,C11", what + ": wrong answer");
				if ((!m).matches(target) == want) fail("C20,C11", what + ": wrong answer of the negation");
			}
			if (!has(mm::StringT(m.describe()), text<P>(p))) fail("C20,C12", what + " is described as " + mm::StringT(m.describe()));
			std::vector<T> many; many.push_back(mk<T>(t)); many.push_back(mk<T>(p));
			const bool second = ci ? oracle(op, fold(p), fold(p)) : oracle(op, p, p);
			if (M::range::each_element(m).matches(many) != (want && second)) fail("C20,C10", what + ": wrong answer within each_element");
			mm::Mock<void(const T&)> mock{};
			mm::ScopedExpectation e = mock.expect_call(std::move(m)) and mm::expect::at_most(1);
			bool got = true; try { mock(target); } catch (const Rejected&) { got = false; }
			if (got != want) fail("C20,C11", what + ": a call is decided wrongly");
			Rec::evs.clear();
		});
		// plain arguments
		mm::Mock<void(T)> mock{};
		mm::ScopedExpectation e = mock.expect_call(mk<P>(p)) and mm::expect::at_most(1);
		bool got = true; Rec::evs.clear(); try { mock(mk<T>(t)); } catch (const Rejected&) { got = false; }
		if (got != (t == p)) fail("C20,C11", "plain argument " + text<P>(p) + ": a call with " + text<T>(t) + " is " + (got ? "accepted" : "rejected"));
		const auto& r = Rec::evs.at(0);
		if (r.call[0].argDetails[0].stateString != text<T>(t)) fail("C20,C12", "a string of the user is printed as " + r.call[0].argDetails[0].stateString + " instead of " + text<T>(t));
		if (!has(mm::print(r.all.at(0)), "is equal to " + text<P>(p))) fail("C20,C13", "a string of the user is not described: " + mm::print(r.all.at(0)));
		++stat("string_pairs");
	}
	template <typename S> void prints(const Seq& s)
	{
		const auto want = text<S>(s);
		const S v = mk<S>(s);
		if (mm::print(v) != want) fail("C20,C12", "a string of the user is printed as " + mm::print(v) + " instead of " + want);
		std::vector<S> vs; vs.push_back(mk<S>(s)); vs.push_back(mk<S>({}));
		if (mm::print(vs) != "{ " + want + ", " + text<S>({}) + " }") fail("C20,C12", "strings of the user in a range are printed as " + mm::print(vs));
		const std::optional<S> o{mk<S>(s)};
		if (mm::print(o) != "{ value: " + want + " }") fail("C20,C12", "a string of the user in an optional is printed as " + mm::print(o));
		const std::pair<int, S> pr{3, mk<S>(s)};
		if (mm::print(pr) != "{ 3, " + want + " }") fail("C20,C12", "a string of the user in a pair is printed as " + mm::print(pr));
	}
	Seq random(Rng& rng, const Seq& a, int n) { Seq s; for (int i = rng.below(n + 1); i > 0; --i) s.push_back(rng.pick(a)); return s; }
	Seq derived(Rng& rng, const Seq& t, const Seq& a)
	{
		if (rng.chance(25)) return random(rng, a, 3);
		const int from = rng.below(static_cast<int>(t.size()) + 1), n = rng.below(static_cast<int>(t.size()) - from + 1);
		Seq p(t.begin() + (rng.chance(30) ? 0 : from), t.begin() + from + n);
		if (!p.empty() && rng.chance(40)) { int& c = p[static_cast<std::size_t>(rng.below(static_cast<int>(p.size())))]; c = rng.chance(60) ? ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ? c ^ 0x20 : c) : rng.pick(a); }
		return p;
	}
}
void stringsCase(Rng& rng)
{
	g_hash = 9; g_true = g_false = 0;
	for (int i = 0; i < 12; ++i)
	{
		const Seq ac{'a', 'A', 'b', 'B', 'z', '0', '+', 0, -23}; const Seq t = random(rng, ac, 5), p = derived(rng, t, ac);
		pairCase<Text, Text>(rng, t, p, foldChar); pairCase<Text, std::string>(rng, t, p, foldChar); pairCase<std::string, Text>(rng, t, p, foldChar);
		prints<Text>(t);
		const Seq al{'a', 'A', 'b', '#', '+', 'Z', 0, -3}; Seq tl = random(rng, al, 5), pl = derived(rng, tl, al);
		pairCase<Line, Line>(rng, tl, pl, foldCh); prints<Line>(tl);
		// lengths which change by folding, in either string
		const Seq as{'#', '+'}; const Seq ts = random(rng, as, 4); Seq ps = rng.chance(50) ? foldCh(ts) : random(rng, as, 4);
		if (rng.chance(40)) { Seq u; for (std::size_t i = 0; i < ps.size(); ++i) if (i + 1 < ps.size() && ps[i] == '+' && ps[i + 1] == '+' && rng.chance(50)) { u.push_back('#'); ++i; } else u.push_back(ps[i]); ps = u; }
		if (!ps.empty() && rng.chance(30)) ps.pop_back();
		pairCase<Line, Line>(rng, ts, ps, foldCh);
		const Seq ar{1, 2, 257, 258, 0, 65535, 255}; const Seq tr = random(rng, ar, 5), pr = derived(rng, tr, ar);
		pairCase<Tape, Tape>(rng, tr, pr, foldRaw); prints<Tape>(tr);
	}
	stat("accepted") += g_true; stat("rejected") += g_false;
	proto::distinct(g_hash);
	proto::sample(std::to_string(g_true) + " accepted / " + std::to_string(g_false) + " rejected pairs of strings of the user");
}
