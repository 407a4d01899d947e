// The wrapped object looks like the object itself: exception specifications, constructors, copyability, polymorphism.
#include "watch.hpp"
#include <list>
using L = mm::LifetimeWatcher; using R = mm::RelocationWatcher;
namespace
{
	template <bool dtor, bool mctor, bool massign, bool virt> struct B;
	template <bool d, bool c, bool a> struct B<d, c, a, false>
	{ B() = default; explicit B(int) {} B(const B&) {} B& operator=(const B&) { return *this; } B(B&&) noexcept(c) {} B& operator=(B&&) noexcept(a) { return *this; } ~B() noexcept(d) {} };
	template <bool d, bool c, bool a> struct B<d, c, a, true>
	{ B() = default; explicit B(int) {} B(const B&) {} B& operator=(const B&) { return *this; } B(B&&) noexcept(c) {} B& operator=(B&&) noexcept(a) { return *this; } virtual ~B() noexcept(d) {} };
	struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
	struct NoDefault { explicit NoDefault(int v, double d = 2.5) : sum{v + d} {} double sum; };
	struct Aggr { std::vector<int> v; Aggr(std::initializer_list<int> l) : v{l} {} };

	template <typename Base, typename W> void same(const char* what)
	{
		const auto eq = [&](const char* trait, bool base, bool w) { ++stat("traits"); if (base != w) fail("C15", std::string{"the watched type differs from the wrapped one: "} + trait + " of " + what + " is " + (w ? "true" : "false")); };
		eq("nothrow destructible", std::is_nothrow_destructible_v<Base>, std::is_nothrow_destructible_v<W>);
		eq("nothrow move constructible", std::is_nothrow_move_constructible_v<Base>, std::is_nothrow_move_constructible_v<W>);
		eq("nothrow move assignable", std::is_nothrow_move_assignable_v<Base>, std::is_nothrow_move_assignable_v<W>);
		eq("move constructible", std::is_move_constructible_v<Base>, std::is_move_constructible_v<W>);
		eq("move assignable", std::is_move_assignable_v<Base>, std::is_move_assignable_v<W>);
		eq("copy constructible", std::is_copy_constructible_v<Base>, std::is_copy_constructible_v<W>);
		eq("copy assignable", std::is_copy_assignable_v<Base>, std::is_copy_assignable_v<W>);
		eq("default constructible", std::is_default_constructible_v<Base>, std::is_default_constructible_v<W>);
		eq("virtual destructor", std::has_virtual_destructor_v<Base>, std::has_virtual_destructor_v<W>);
		eq("derived from it", true, std::derived_from<W, Base>);
		proto::distinct(std::string{what} + "/" + typeid(W).name());
	}
	template <typename Base> void all(const char* what)
	{
		same<Base, mm::Watched<Base, L>>(what); same<Base, mm::Watched<Base, R>>(what);
		same<Base, mm::Watched<Base, L, R>>(what); same<Base, mm::Watched<Base, R, L>>(what);
	}
}
void checkTraits()
{
	all<B<true, true, true, false>>("nothrow base"); all<B<true, true, true, true>>("virtual nothrow base");
	all<B<false, true, false, false>>("base 010"); all<B<true, false, true, false>>("base 101");
	all<B<true, false, false, true>>("virtual base 100"); all<B<false, false, false, true>>("virtual base 000"); all<B<true, true, false, true>>("virtual base 110");
	all<std::string>("std::string"); all<std::vector<std::unique_ptr<int>>>("vector of unique_ptr"); 
	same<MoveOnly, mm::Watched<MoveOnly, R>>("move-only"); same<NoDefault, mm::Watched<NoDefault, R>>("no default constructor");
	mm::Watched<NoDefault, R> n{3}; mm::Watched<NoDefault, R> n2{3, 4.5};
	if (n.sum != 5.5 || n2.sum != 7.5) fail("C15", "constructor arguments are not forwarded to the wrapped object");
	mm::Watched<Aggr, R> ag{4, 5, 6};
	if (ag.v != std::vector{4, 5, 6}) fail("C15", "constructor arguments are not forwarded to the wrapped object");
}
