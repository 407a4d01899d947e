// C11: string matchers against a naive oracle over character vectors.
#pragma once
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"
#include <string>
#include <string_view>
#include <vector>

namespace mm = mimicpp;
namespace S = mimicpp::matches::str;
using proto::fail; using proto::stat; using proto::Rng;

enum Op { EQ, STARTS, ENDS, CONTAINS };
inline const char* const opName[] = {"eq", "starts_with", "ends_with", "contains"};

inline std::uint64_t g_hash; inline int g_true, g_false; inline std::string g_last;

template <typename Char> using Str = std::basic_string<Char>;
template <typename Char> using View = std::basic_string_view<Char>;

template <typename Char> std::string show(const Str<Char>& s)
{
	std::string r = "<";
	if (s.size() > 1000) return show(s.substr(0, 40)) + "...(" + std::to_string(s.size()) + " characters)..." + show(s.substr(s.size() - 40));
	for (Char c : s) { char b[24]; const auto u = static_cast<unsigned long>(static_cast<std::make_unsigned_t<Char>>(c)); if (u >= 33 && u < 127) std::snprintf(b, sizeof b, "%c", static_cast<char>(u)); else std::snprintf(b, sizeof b, "\\x%lx", u); r += b; }
	return r + ">";
}
template <typename Char> Char fold(Char c) { return c >= Char('a') && c <= Char('z') ? static_cast<Char>(c - Char('a') + Char('A')) : c; }
// the oracle: straight from the definitions, index by index
template <typename Char> bool oracle(int op, const Str<Char>& t, const Str<Char>& p, bool ci)
{
	const auto at = [&](std::size_t ti, std::size_t pi) { return ci ? fold(t[ti]) == fold(p[pi]) : t[ti] == p[pi]; };
	const auto here = [&](std::size_t off) { if (off + p.size() > t.size()) return false; for (std::size_t i = 0; i < p.size(); ++i) if (!at(off + i, i)) return false; return true; };
	switch (op)
	{
	case EQ: return t.size() == p.size() && here(0);
	case STARTS: return here(0);
	case ENDS: return p.size() <= t.size() && here(t.size() - p.size());
	default: for (std::size_t o = 0; o + p.size() <= t.size(); ++o) if (here(o)) return true; return false;
	}
}
template <typename F, typename P> void withOp(int op, F&& f, P&& p)
{
	switch (op)
	{
	case EQ: f(S::eq(std::forward<P>(p))); break;
	case STARTS: f(S::starts_with(std::forward<P>(p))); break;
	case ENDS: f(S::ends_with(std::forward<P>(p))); break;
	default: f(S::contains(std::forward<P>(p))); break;
	}
}
template <typename F, typename P> void withOpCi(int op, F&& f, P&& p)
{
	switch (op)
	{
	case EQ: f(S::eq(std::forward<P>(p), mm::case_insensitive)); break;
	case STARTS: f(S::starts_with(std::forward<P>(p), mm::case_insensitive)); break;
	case ENDS: f(S::ends_with(std::forward<P>(p), mm::case_insensitive)); break;
	default: f(S::contains(std::forward<P>(p), mm::case_insensitive)); break;
	}
}
template <typename Char, typename Mt, typename T>
void ask(const Mt& m, T& target, bool want, int op, bool ci, const Str<Char>& t, const Str<Char>& p, const char* pk, const char* tk)
{
	const auto n = !m;
	for (int i = 0; i < 2; ++i)
	{
		if (m.matches(target) != want || n.matches(target) == want)
			fail("C11,C10", std::string{"str::"} + opName[op] + "(" + show(p) + (ci ? ", case_insensitive" : "") + ") " + (m.matches(target) != want ? "" : "negated ") + "answers wrongly for " + show(t)
				+ " (pattern as " + pk + ", target as " + tk + ", expected " + (want ? "match" : "no match") + ")");
	}
	++stat("questions"); (want ? g_true : g_false)++;
	g_hash = g_hash * 1099511628211ull + static_cast<std::uint64_t>(want) + 3u * static_cast<unsigned>(op);
}
// all kinds of targets for one matcher
template <typename Char, bool wide, typename Mt>
void targets(const Mt& m, bool want, int op, bool ci, const Str<Char>& t, const Str<Char>& p, const char* pk)
{
	Str<Char> s = t;
	ask<Char>(m, s, want, op, ci, t, p, pk, "string");
	const bool hasZero = t.find(Char(0)) != Str<Char>::npos;
	// views: without anything behind their end (an exactly sized heap buffer)
	std::vector<Char> exact(t.begin(), t.end());
	View<Char> v{exact.data(), exact.size()};
	ask<Char>(m, v, want, op, ci, t, p, pk, "view");
	if (!hasZero)
	{
		std::vector<Char> z(t.begin(), t.end()); z.push_back(Char(0)); z.shrink_to_fit();
		const Char* c = z.data();
		ask<Char>(m, c, want, op, ci, t, p, pk, "pointer");
		if constexpr (wide)
		{
			Char* mc = z.data();
			ask<Char>(m, mc, want, op, ci, t, p, pk, "mutable pointer");
			const Str<Char> cs = t;
			ask<Char>(m, cs, want, op, ci, t, p, pk, "const string");
			if (t.size() < 8) { Char arr[8]{}; for (std::size_t i = 0; i < t.size(); ++i) arr[i] = t[i]; ask<Char>(m, arr, want, op, ci, t, p, pk, "array"); }
		}
		if (!std::equal(t.begin(), t.end(), z.begin())) fail("C11,C10", "a string matcher modified its target");
	}
	if (s != t || !std::equal(t.begin(), t.end(), exact.begin())) fail("C11,C10", "a string matcher modified its target");
}
template <typename Char, bool wide, bool allowCi>
void pairCase(const Str<Char>& t, const Str<Char>& p)
{
	for (int op = 0; op < 4; ++op)
		for (int ci = 0; ci < (allowCi ? 2 : 1); ++ci)
		{
			const bool want = oracle(op, t, p, ci != 0);
			const auto with = [&](auto&& f, auto&& pat) { if constexpr (allowCi) { if (ci) { withOpCi(op, f, std::forward<decltype(pat)>(pat)); return; } } if (!ci) withOp(op, f, std::forward<decltype(pat)>(pat)); };
			Str<Char> user = p; const Str<Char> cuser = p;
			const auto all = [&](const char* kind) { return [&, kind](auto&& m) { targets<Char, wide>(m, want, op, ci != 0, t, p, kind); const auto d = m.describe(); if (d != m.describe() || d.empty() || d == (!m).describe()) fail("C11", "description of a string matcher is unusable"); ++stat("descriptions"); }; };
			with(all("lvalue string"), user);
			with(all("const string"), cuser);
			with(all("rvalue string"), Str<Char>(p));
			std::vector<Char> exact(p.begin(), p.end());
			with(all("view"), View<Char>{exact.data(), exact.size()});
			if (p.find(Char(0)) == Str<Char>::npos)
			{
				std::vector<Char> z(p.begin(), p.end()); z.push_back(Char(0)); z.shrink_to_fit();
				with(all("pointer"), static_cast<const Char*>(z.data()));
			}
			if (user != p || cuser != p) fail("C11,C10", "a string matcher modified the pattern of the user");
		}
	++stat("pairs");
	g_last = "target " + show(t) + " pattern " + show(p);
}
// one form of pattern and target only, for many pairs
template <typename Char, bool allowCi>
void leanPair(const Str<Char>& t, const Str<Char>& p)
{
	for (int op = 0; op < 4; ++op)
		for (int ci = 0; ci < (allowCi ? 2 : 1); ++ci)
		{
			const bool want = oracle(op, t, p, ci != 0);
			const auto q = [&](auto&& m) { View<Char> v{t}; ask<Char>(m, v, want, op, ci != 0, t, p, "string", "view"); };
			if constexpr (allowCi) { if (ci) { withOpCi(op, q, p); continue; } }
			withOp(op, q, p);
		}
	++stat("pairs");
	g_last = "target " + show(t) + " pattern " + show(p);
}
template <typename Char> void anyCase(Rng& rng, Str<Char>& s) { for (auto& c : s) if (c >= Char('a') && c <= Char('z') && rng.chance(50)) c = static_cast<Char>(c - 32); }
template <typename Char> Str<Char> nth(long n, const std::vector<Char>& alphabet)
{
	// enumerates all strings by length
	const long b = static_cast<long>(alphabet.size());
	long len = 0, cnt = 1;
	while (n >= cnt) { n -= cnt; cnt *= b; ++len; }
	Str<Char> s; for (long i = 0; i < len; ++i) { s.push_back(alphabet[static_cast<std::size_t>(n % b)]); n /= b; } return s;
}
template <typename Char> Str<Char> randomStr(Rng& rng, const std::vector<Char>& alphabet, int maxLen)
{
	Str<Char> s; for (int i = rng.below(maxLen + 1); i > 0; --i) s.push_back(rng.chance(70) ? rng.pick(alphabet) : static_cast<Char>(rng.next())); return s;
}
template <typename Char> Str<Char> derived(Rng& rng, const Str<Char>& t, const std::vector<Char>& alphabet)
{
	const int n = static_cast<int>(t.size());
	switch (rng.below(8))
	{
	case 0: return t;
	case 1: return t.substr(0, static_cast<std::size_t>(rng.below(n + 1)));
	case 2: return t.substr(static_cast<std::size_t>(rng.below(n + 1)));
	case 3: { const auto a = static_cast<std::size_t>(rng.below(n + 1)); return t.substr(a, static_cast<std::size_t>(rng.below(n + 1))); }
	case 4: { auto s = t; if (n) s[static_cast<std::size_t>(rng.below(n))] = rng.pick(alphabet); return s; }
	case 5: { auto s = t; s.push_back(rng.pick(alphabet)); return s; }
	case 6: { auto s = t; for (auto& c : s) { if (c >= Char('a') && c <= Char('z') && rng.chance(60)) c = static_cast<Char>(c - 32); else if (c >= Char('A') && c <= Char('Z') && rng.chance(60)) c = static_cast<Char>(c + 32); } return s; }
	default: return randomStr(rng, alphabet, n + 2);
	}
}
template <typename Char, bool wide, bool allowCi>
void strCase(const std::string& mode, long no, Rng& rng)
{
	if (mode == "binary")
	{
		static const std::vector<Char> a{Char('a'), Char('b')};
		if (no < 15)
		{
			// all targets up to length 7 and patterns up to length 4 over two characters: every way in which occurrences and failed occurrences overlap
			for (long i = no * 17; i < (no + 1) * 17; ++i)
				for (long k = 0; k < 31; ++k)
				{
					Str<Char> t = nth(i, a), p = nth(k, a);
					leanPair<Char, allowCi>(t, p);
					if (allowCi) { anyCase(rng, t); anyCase(rng, p); leanPair<Char, allowCi>(t, p); }
				}
			return;
		}
		// lengths around and beyond the limits of small integers
		for (int round = 0; round < 2; ++round)
		{
			static const int sizes[]{127, 128, 255, 256, 257, 4096, 32767, 32768, 40000, 65535, 65536, 66000, 100000};
			Str<Char> t; const int n = sizes[static_cast<std::size_t>(2 * no + round) % std::size(sizes)] + rng.below(20) + (no % 2 ? 0 : 13);
			while (static_cast<int>(t.size()) < n) t.push_back(static_cast<Char>('a' + rng.below(20)));
			const std::size_t size = t.size(), few = 1 + static_cast<std::size_t>(rng.below(12));
			Str<Char> changed = t; changed[rng.chance(50) ? size - 1 : static_cast<std::size_t>(rng.below(n))] = Char('z');
			for (const auto& p : {t, changed, t + t.substr(0, few), t.substr(0, few), t.substr(size - few), t.substr(size / 2, few), t.substr(few), t.substr(0, size - few), t.substr(0, size % 65536), t.substr(size - size % 256), t.substr(size % 32768), changed.substr(size - few), changed.substr(0, size - 1), changed.substr(1)})
				leanPair<Char, allowCi>(t, p);
			stat("longest") = std::max<std::uint64_t>(stat("longest"), size);
		}
		// longer periodic words and patterns cut from them
		for (int i = 0; i < 150; ++i)
		{
			Str<Char> t; const int n = rng.chance(90) ? rng.below(40) : rng.below(600);
			const int kind = rng.below(4), period = 1 + rng.below(5);
			Str<Char> unit; for (int j = 0; j < period; ++j) unit.push_back(rng.pick(a));
			Str<Char> f1(1, a[0]), f2{a[0], a[1]};
			while (f2.size() < static_cast<std::size_t>(n)) { auto x = f2 + f1; f1 = f2; f2 = x; }
			for (int j = 0; j < n; ++j)
				t.push_back(kind == 0 ? unit[static_cast<std::size_t>(j % period)] : kind == 1 ? f2[static_cast<std::size_t>(j)] : kind == 2 ? a[static_cast<std::size_t>(__builtin_popcount(static_cast<unsigned>(j)) % 2)] : rng.pick(a));
			if (n && rng.chance(50)) t[static_cast<std::size_t>(rng.below(n))] = rng.pick(a);
			const auto from = static_cast<std::size_t>(rng.below(n + 1)), size = static_cast<std::size_t>(rng.below(14));
			Str<Char> p = t.substr(from, size);
			if (!p.empty() && rng.chance(40)) p[static_cast<std::size_t>(rng.below(static_cast<int>(p.size())))] = rng.pick(a);
			if (rng.chance(10)) p = t + p;
			if (allowCi && rng.chance(50)) { anyCase(rng, t); anyCase(rng, p); }
			leanPair<Char, allowCi>(t, p);
		}
	}
	else if (mode == "exhaustive")
	{
		// all pairs up to length 3 over a small alphabet (with a case pair, a zero and a large value)
		static const std::vector<Char> a{Char('a'), Char('A'), Char('b'), Char(0)};
		constexpr long N = 1 + 4 + 16 + 64;
		const Str<Char> t = nth(no % N, a);
		for (long k = 0; k < N; ++k) pairCase<Char, wide, allowCi>(t, nth(k, a));
	}
	else
	{
		std::vector<Char> a{Char('a'), Char('b'), Char('A'), Char('Z'), Char('z'), Char('@'), Char('['), Char('`'), Char('{'), Char(0), Char(-1), Char(0x7f), Char(0x80), Char(0xe4), Char(0xc4)};
		if (sizeof(Char) > 1) { a.push_back(Char(0x0161)); a.push_back(Char(0x0141)); a.push_back(Char(0x8000)); }
		for (int i = 0; i < 12; ++i)
		{
			const Str<Char> t = randomStr(rng, a, rng.chance(90) ? 7 : 60);
			for (int k = 0; k < 4; ++k) pairCase<Char, wide, allowCi>(t, derived(rng, t, a));
			// repetitive strings make partial matches overlap
			Str<Char> u; for (int k = rng.below(10); k > 0; --k) u.push_back(rng.chance(80) ? a[0] : a[1]);
			Str<Char> q; for (int k = rng.below(5); k > 0; --k) q.push_back(rng.chance(75) ? a[0] : a[1]);
			pairCase<Char, wide, allowCi>(u, q);
		}
		// each single character against its neighbours and case partners
		if constexpr (sizeof(Char) == 1)
			for (int c = static_cast<int>(no % 8) * 32, end = c + 32; c < end; ++c)
			{
				const Str<Char> s(1, static_cast<Char>(c));
				for (int d : {c, c ^ 32, (c + 1) & 255, 255 - c}) pairCase<Char, false, allowCi>(s, Str<Char>(1, static_cast<Char>(d)));
			}
	}
}
void strChar(const std::string&, long, Rng&);
void strWide(const std::string&, long, Rng&);
void strU8(const std::string&, long, Rng&);
void strU16(const std::string&, long, Rng&);
void strU32(const std::string&, long, Rng&);
void strUChar(const std::string&, long, Rng&);
void strSChar(const std::string&, long, Rng&);
void mockCase(Rng&);
