#include "match.hpp"
static void wildcardCase()
{
	g_what = "matches::_";
	int x = 3; std::string s; std::unique_ptr<int> p; std::vector<int> v;
	if (!M::_.matches(x) || !M::_.matches(s) || !M::_.matches(p) || !M::_.matches(v) || !M::_.matches(std::as_const(p))) fail("C10", "the wildcard rejects");
	viaMock<int>(M::_, 4, true); viaMock<std::string>(M::_, std::string{}, true); viaMock<const std::unique_ptr<int>&>(M::_, p, true);
	// plain values are equality matchers
	for (int a = -2; a < 3; ++a) for (int b = -2; b < 3; ++b) { g_what = "plain value " + std::to_string(b); viaMock<int>(b, a, a == b); viaMock<const int&>(b, a, a == b); }
	for (double a : pool<double>()) for (double b : pool<double>()) { g_what = "plain value " + std::to_string(b); viaMock<double>(b, a, a == b); }
}

static void argCase(Rng& rng)
{
	g_what = "expect::arg";
	mm::Mock<void(int, const std::string&, std::vector<int>)> mock{};
	const int a = rng.below(4), b = rng.below(4), c = rng.below(4);
	const int ea = rng.below(4), eb = rng.below(4), ec = rng.below(4);
	auto accepts = [&](auto&& builder)
	{
		mm::ScopedExpectation e = std::move(builder) && mm::expect::at_most(1);
		try { mock(a, std::string(static_cast<std::size_t>(b), 'x'), std::vector<int>(static_cast<std::size_t>(c), 7)); return true; } catch (const Quiet::No&) { return false; }
	};
	using M::_;
	namespace ex = mm::expect;
	const auto chk = [&](bool got, bool want, const char* w) { if (got != want) fail("C10", std::string{"requirement "} + w + " is decided wrongly for " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + " expected " + std::to_string(ea) + "," + std::to_string(eb) + "," + std::to_string(ec)); ++stat("arg_cases"); };
	chk(accepts(mock.expect_call(_, _, _) && ex::arg<0>(M::le(ea))), a <= ea, "arg<0>(le)");
	chk(accepts(mock.expect_call(_, _, _) && ex::arg<1>(M::eq(eb), &std::string::size)), b == eb, "arg<1>(eq, size)");
	chk(accepts(mock.expect_call(_, _, _) && ex::arg<2>(M::range::has_size(ec))), c == ec, "arg<2>(has_size)");
	chk(accepts(mock.expect_call(_, _, _) && ex::arg<0>(M::ge(ea), [](int v) { return v * 2; })), a * 2 >= ea, "arg<0>(ge, projection)");
	chk(accepts(mock.expect_call(M::ne(ea), _, M::range::has_size(ec)) && ex::arg<1>(!M::eq(eb), &std::string::size)), a != ea && c == ec && b != eb, "combination");
	chk(accepts(mock.expect_call(ea, std::string(static_cast<std::size_t>(eb), 'x'), std::vector<int>(static_cast<std::size_t>(ec), 7))), a == ea && b == eb && c == ec, "plain values");
	const auto lm = M::lt(ea);
	chk(accepts(mock.expect_call(lm, _, _)), a < ea, "lvalue matcher");
	chk(accepts(mock.expect_call(lm, _, _) && ex::arg<0>(lm)), a < ea, "lvalue matcher again");
	std::string ustr(static_cast<std::size_t>(eb), 'x'); const auto keep = ustr;
	chk(accepts(mock.expect_call(_, ustr, _)), b == eb, "lvalue string");
	chk(accepts(mock.expect_call(_, M::eq(ustr), _)), b == eb, "eq(lvalue string)");
	if (ustr != keep) fail("C10", "a string of the user was modified by a set-up");
}

void argsCase(Rng& rng) { wildcardCase(); for (int i = 0; i < 10; ++i) argCase(rng); }
