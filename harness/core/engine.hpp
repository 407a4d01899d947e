// Scenario engine: drives random histories against the real library and checks every observable event online
// against an executable reference model.  Only the public interface of the library is used.
#pragma once
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>

namespace eng
{
	namespace mm = mimicpp;

	using proto::Rng;

	// ---- things handed to the library -------------------------------------------------------------------------
	inline long g_tokensLive = 0;
	inline long g_tokensMade = 0;
	struct Token // counts live copies and detects use after destruction
	{
		static constexpr std::uint32_t good = 0x600DF00Du;
		std::uint32_t magic{good};
		Token() { ++g_tokensLive; ++g_tokensMade; }
		Token(const Token& o) { o.check(); ++g_tokensLive; ++g_tokensMade; }
		Token(Token&& o) noexcept { o.check(); ++g_tokensLive; ++g_tokensMade; }
		Token& operator=(const Token&) = default;
		~Token() { check(); magic = 0xDEADBEEFu; --g_tokensLive; }
		void check() const { if (magic != good) { std::puts("TOKEN CORRUPT"); std::fflush(stdout); std::abort(); } }
	};

	struct NoMatch {};
	struct Inapplicable {};
	struct Unfulfilled {};
	struct UserEx : std::exception { int id{}; int serial{}; UserEx() = default; UserEx(int i, int s) : id{i}, serial{s} {} };
	struct LoudEx : std::exception { std::string text; explicit LoudEx(std::string t) : text{std::move(t)} {} const char* what() const noexcept override { return text.c_str(); } };
	struct MatcherEx { int id; };

	enum class SeqShape { none, L, G, LL, LG, GG, LGL, count };
	enum TimesKind { tk_default, tk_range, tk_exact, tk_atleast, tk_atmost, tk_once, tk_twice };

	struct Config // what to build
	{
		int id;
		unsigned mask0, mask1; // accepted arguments (bit per value 0..7)
		unsigned silent[2]{255u, 255u}; // accepted by requirements without a description
		TimesKind tk;
		int min, max;
		SeqShape shape;
		mm::LazySequence* l[3]{};
		mm::GreedySequence* g[3]{};
		std::source_location loc;
	};

	// hooks implemented by the world
	void onMatches(int id, int slot, int a);
	void onConsume(int id, int slot);
	void onAction(int id, int slot, int a, int b);
	int onFinalize(int id);
	bool predMatches(int id, int argNo, int value);
	std::string probeDescription(int id, int slot);

	struct Probe
	{
		int id, slot;
		Token token{};
		bool is_satisfied() const noexcept { return true; }
		template <typename R, typename... Ps>
		bool matches(const mm::call::Info<R, Ps...>& info) const
		{
			token.check();
			onMatches(id, slot, std::get<0>(info.args).get());
			return true;
		}
		std::optional<mm::StringT> describe() const { return probeDescription(id, slot); }
		template <typename R, typename... Ps>
		void consume(const mm::call::Info<R, Ps...>&) { token.check(); onConsume(id, slot); }
	};

	struct Silent // a requirement which does not describe itself
	{
		unsigned mask;
		Token token{};
		bool is_satisfied() const noexcept { return true; }
		template <typename R, typename... Ps>
		bool matches(const mm::call::Info<R, Ps...>& info) const { token.check(); const int v = std::get<0>(info.args).get(); return v < 0 || v >= 8 || (mask >> v & 1u) != 0; }
		std::optional<mm::StringT> describe() const { return std::nullopt; }
		template <typename R, typename... Ps>
		void consume(const mm::call::Info<R, Ps...>&) { token.check(); }
	};

	struct Fin
	{
		int id;
		Token token{};
		template <typename R, typename... Ps>
		R finalize_call(const mm::call::Info<R, Ps...>&)
		{
			token.check();
			if constexpr (std::is_void_v<R>) { onFinalize(id); }
			else { return onFinalize(id); }
		}
	};

	// ---- mocks -------------------------------------------------------------------------------------------------
	struct Endpoint { int collection; mm::Constness constness; mm::ValueCategory category; };
	enum class CallOutcome { value, noMatch, inapplicable, userEx, other };

	struct IMock
	{
		virtual ~IMock() = default;
		virtual int kind() const = 0;
		virtual std::unique_ptr<IMock> moveConstruct() = 0;   // leaves *this moved-from
		virtual void moveAssignFrom(IMock& o) = 0;            // same kind
		virtual int call(int endpoint, int a, int b, const std::source_location& loc) = 0;
		virtual mm::ScopedExpectation expect(int endpoint, const Config& c) = 0;
	};
	std::unique_ptr<IMock> makeMock0();
	std::unique_ptr<IMock> makeMock1();
	std::unique_ptr<IMock> makeMock2();
	std::unique_ptr<IMock> makeMock3();

	struct Pred
	{
		int id, argNo; unsigned mask; Token token{};
		bool operator()(int v) const { token.check(); return v >= 0 && v < 8 && ((mask >> v) & 1u); }
	};

	template <bool withTimes, typename Builder>
	mm::ScopedExpectation finish(Builder&& b, const Config& c)
	{
		if constexpr (!withTimes)
		{
			return mm::ScopedExpectation{std::forward<Builder>(b), c.loc};
		}
		else
		{
			switch (c.tk)
			{
			case tk_exact: return mm::ScopedExpectation{std::forward<Builder>(b) && mm::expect::times(c.min), c.loc};
			case tk_atleast: return mm::ScopedExpectation{std::forward<Builder>(b) && mm::expect::at_least(c.min), c.loc};
			case tk_atmost: return mm::ScopedExpectation{std::forward<Builder>(b) && mm::expect::at_most(c.max), c.loc};
			case tk_once: return mm::ScopedExpectation{std::forward<Builder>(b) && mm::expect::once(), c.loc};
			case tk_twice: return mm::ScopedExpectation{std::forward<Builder>(b) && mm::expect::twice(), c.loc};
			default: return mm::ScopedExpectation{std::forward<Builder>(b) && mm::expect::times(c.min, c.max), c.loc};
			}
		}
	}

	template <bool builtinFinalizer, typename Builder>
	auto addFinalizer(Builder&& b, const Config& c)
	{
		if constexpr (builtinFinalizer)
			return std::forward<Builder>(b) && mm::finally::returns_result_of([id = c.id, t = Token{}] { t.check(); return onFinalize(id); });
		else
			return std::forward<Builder>(b) && Fin{c.id};
	}

	template <bool builtinFinalizer, bool fullShapes, bool binary, typename View>
	mm::ScopedExpectation expectOn(View&& view, const Config& c)
	{
		auto base = [&]
		{
			auto p0 = mm::matches::predicate(Pred{c.id, 0, c.mask0}, "pred#" + std::to_string(c.id) + "/0", "!pred");
			const auto rest = [&](auto&& bb)
			{
				const int id = c.id;
				return std::forward<decltype(bb)>(bb)
						&& Probe{id, 0}
						&& Silent{c.silent[0]}
						&& mm::then::apply_all([id, t = Token{}](int x, auto... y)
						{
							t.check();
							if constexpr (sizeof...(y) == 1) onAction(id, 1, x, (y, ...));
							else onAction(id, 1, x, 0);
						})
						&& Probe{id, 2}
						&& mm::then::apply_arg<0>([id, t = Token{}](int a) { t.check(); onAction(id, 3, a, -1); })
						&& Silent{c.silent[1]};
			};
			if constexpr (binary)
			{
				auto p1 = mm::matches::predicate(Pred{c.id, 1, c.mask1}, "pred#" + std::to_string(c.id) + "/1", "!pred");
				return rest(std::forward<View>(view).expect_call(std::move(p0), std::move(p1)));
			}
			else
			{
				return rest(std::forward<View>(view).expect_call(std::move(p0)));
			}
		};
		namespace ex = mm::expect;
		const auto go = [&](auto&& b) -> mm::ScopedExpectation
		{
			return finish<true>(addFinalizer<builtinFinalizer>(std::move(b), c), c);
		};
		switch (c.shape)
		{
		case SeqShape::none:
			if (c.tk == tk_default)
				return finish<false>(addFinalizer<builtinFinalizer>(base(), c), c);
			return go(base());
		case SeqShape::L: return go(base() && ex::in_sequence(*c.l[0]));
		default: break;
		}
		if constexpr (fullShapes)
		{
			switch (c.shape)
			{
			case SeqShape::G: return go(base() && ex::in_sequence(*c.g[0]));
			case SeqShape::LL: return go(base() && ex::in_sequences(*c.l[0], *c.l[1]));
			case SeqShape::LG: return go(base() && ex::in_sequence(*c.l[0]) && ex::in_sequence(*c.g[0]));
			case SeqShape::GG: return go(base() && ex::in_sequences(*c.g[0], *c.g[1]));
			case SeqShape::LGL: return go(base() && ex::in_sequences(*c.l[0], *c.g[0], *c.l[1]));
			default: break;
			}
		}
		std::puts("harness: bad shape"); std::abort();
	}
}
