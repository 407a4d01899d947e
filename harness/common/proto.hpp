// Common protocol of all harness programs:
//   prog PROFILE SEED FIRST COUNT PROGRESSFILE
// runs cases FIRST .. FIRST+COUNT-1 (each a pure function of PROFILE, SEED and its number) and prints
//   SAMPLE <text>                 some of the cases, written out
//   STATS {json object of counters}  on success (exit 0)
//   FAIL tags=C01,C02 key=<stable key> ... / MSG ... / history       (exit 77) when a monitor reports
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace proto
{
	struct Rng
	{
		std::uint64_t s;
		explicit Rng(std::uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ull + 0x1234567ull} { next(); next(); }
		std::uint64_t next()
		{
			s += 0x9E3779B97F4A7C15ull;
			std::uint64_t z = s;
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		int below(int n) { return static_cast<int>(next() % static_cast<std::uint64_t>(n)); }
		int between(int lo, int hi) { return lo + below(hi - lo + 1); }
		bool chance(int percent) { return below(100) < percent; }
		template <typename T> const T& pick(const std::vector<T>& v) { return v[static_cast<std::size_t>(below(static_cast<int>(v.size())))]; }
	};

	inline std::string g_profile; inline std::uint64_t g_seed = 1; inline long g_case = 0;
	inline volatile long* g_progress = nullptr;
	inline std::vector<std::string> g_log;
	inline std::map<std::string, long> g_stats;
	inline std::unordered_set<std::uint64_t> g_distinct; // fingerprints of non-trivial cases
	inline int g_samples = 0;

	inline long& stat(const std::string& k) { return g_stats[k]; }
	inline std::uint64_t fnv(const std::string& s, std::uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
	// the trace of a case: everything logged, noted or fingerprinted; with HARNESS_DIGESTS its digest is printed per case (C22 compares them between builds)
	inline std::uint64_t g_digest;
	inline void trace(const std::string& s)
	{
		static const bool dump = std::getenv("HARNESS_TRACE");
		if (dump) { std::printf("T %s\n", s.c_str()); std::fflush(stdout); }
		g_digest = fnv("\n", fnv(s, g_digest));
	}
	inline void distinct(std::uint64_t h) { trace("fingerprint " + std::to_string(h)); if (g_distinct.size() < 2000000) g_distinct.insert(h); }
	inline void distinct(const std::string& s) { distinct(fnv(s)); }
	inline void log(std::string s)
	{
		static const bool verbose = std::getenv("HARNESS_VERBOSE");
		trace(s);
		if (verbose) { std::printf("# %s\n", s.c_str()); std::fflush(stdout); }
		if (g_log.size() > 400) g_log.erase(g_log.begin(), g_log.begin() + 200);
		g_log.push_back(std::move(s));
	}
	inline std::string oneLine(std::string s) { for (char& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
	inline void sample(const std::string& s) { if (g_samples < 3) { ++g_samples; std::printf("SAMPLE %s\n", oneLine(s).substr(0, 1500).c_str()); } }

	inline void printStats()
	{
		std::printf("STATS {");
		bool f = true;
		for (auto& [k, v] : g_stats) { std::printf("%s\"%s\":%ld", f ? "" : ",", k.c_str(), v); f = false; }
		std::printf("%s\"distinct\":%zu}\n", f ? "" : ",", g_distinct.size());
	}
	[[noreturn]] inline void fail(const std::string& tags, const std::string& msg, const std::string& key = "")
	{
		std::printf("FAIL tags=%s key=%s profile=%s seed=%llu case=%ld\n", tags.c_str(), key.empty() ? "-" : key.c_str(), g_profile.c_str(), static_cast<unsigned long long>(g_seed), g_case);
		std::printf("MSG %s\n", msg.c_str());
		std::printf("HISTORY (last %zu entries)\n", g_log.size());
		for (auto& l : g_log) std::printf("  %s\n", l.c_str());
		printStats();
		std::fflush(stdout);
		_exit(77);
	}
	inline std::string quoted(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') r += static_cast<char>(c); else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
		return r + "\"";
	}

	template <typename Case>
	int run(int argc, char** argv, Case&& oneCase)
	{
		if (argc < 5) { std::puts("usage: prog PROFILE SEED FIRST COUNT [PROGRESS]"); return 2; }
		g_profile = argv[1]; g_seed = std::strtoull(argv[2], nullptr, 10);
		const long first = std::atol(argv[3]), count = std::atol(argv[4]);
		static long dummy; g_progress = &dummy;
		if (argc > 5)
		{
			const int fd = ::open(argv[5], O_RDWR | O_CREAT, 0644);
			if (fd < 0 || ::ftruncate(fd, 4096) != 0) return 2;
			void* p = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (p == MAP_FAILED) return 2;
			g_progress = static_cast<volatile long*>(p);
		}
		const bool digests = std::getenv("HARNESS_DIGESTS");
		for (long c = first; c < first + count; ++c)
		{
			g_digest = 1469598103934665603ull;
			*g_progress = c + 1; g_case = c; g_log.clear();
			oneCase(c, g_seed * 1000003ull + static_cast<std::uint64_t>(c) + fnv(g_profile) % 1000003ull * 7919ull);
			++g_stats["cases"];
			if (digests) std::printf("DIGEST %ld %llx\n", c, static_cast<unsigned long long>(g_digest));
		}
		printStats();
		std::fflush(stdout);
		return 0;
	}
}
