#pragma once
#include "match.hpp"
using Seq = std::vector<int>;
using Cmp = bool (*)(int, int);
inline bool c_eq(int a, int b) { return a == b; }
inline bool c_lt(int a, int b) { return a < b; }
inline bool c_gt(int a, int b) { return a > b; }
inline bool c_succ(int a, int b) { return a + 1 == b; }
inline bool c_mod(int a, int b) { return a % 2 == b % 2; }
inline bool c_modlt(int a, int b) { return a % 2 < b % 2; }
inline bool seqEq(const Seq& t, const Seq& e, Cmp c) { if (t.size() != e.size()) return false; for (std::size_t i = 0; i < t.size(); ++i) if (!c(t[i], e[i])) return false; return true; }
inline bool perm(const Seq& t, const Seq& e, int mod)
{
	if (t.size() != e.size()) return false;
	std::map<int, int> n; for (int x : t) ++n[mod ? x % mod : x]; for (int x : e) --n[mod ? x % mod : x];
	for (auto& [k, c] : n) if (c) return false;
	return true;
}
inline bool sortedBy(const Seq& t, Cmp c) { for (std::size_t i = 1; i < t.size(); ++i) if (c(t[i], t[i - 1])) return false; return true; }
inline bool allLt(const Seq& t, int k) { for (int x : t) if (!(x < k)) return false; return true; }
inline bool allGe(const Seq& t, int k) { for (int x : t) if (x < k) return false; return true; }
inline bool anyEq(const Seq& t, int k) { for (int x : t) if (x == k) return true; return false; }
inline bool anyNe(const Seq& t, int k) { for (int x : t) if (x != k) return true; return false; }
inline Seq seqNo(int code, int base, int len) { Seq s; for (int i = 0; i < len; ++i) { s.push_back(code % base); code /= base; } return s; }
inline std::vector<Seq> allSeqs(int base, int maxLen) { std::vector<Seq> r; int n = 1; for (int l = 0; l <= maxLen; ++l) { for (int c = 0; c < n; ++c) r.push_back(seqNo(c, base, l)); n *= base; } return r; }
inline const std::vector<Seq>& shortSeqs() { static const std::vector<Seq> all = allSeqs(3, 4); return all; }
inline Seq related(Rng& rng, const Seq& t)
{
	if (rng.chance(25)) return t;
	if (rng.chance(40)) { Seq x = t; for (std::size_t i = x.size(); i > 1; --i) std::swap(x[i - 1], x[static_cast<std::size_t>(rng.below(static_cast<int>(i)))]); return x; }
	if (rng.chance(30)) { Seq x = t; if (!x.empty() && rng.chance(50)) x.pop_back(); else x.push_back(rng.below(3)); return x; }
	return rng.pick(shortSeqs());
}
inline Seq randomSeq(Rng& rng)
{
	if (rng.chance(75)) return rng.pick(shortSeqs());
	Seq s; for (int i = rng.below(12); i > 0; --i) s.push_back(rng.below(4)); return s;
}
