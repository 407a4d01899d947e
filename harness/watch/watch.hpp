// C15: watched objects. Type-erased operations on Watched<Base, Watchers...>; the driver (main.cpp) is not templated.
#pragma once
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <vector>

namespace mm = mimicpp;
using proto::fail; using proto::stat; using proto::Rng;

// ---- counting base objects --------------------------------------------------------------------------------
struct Counts { int ctor{}, copy{}, move{}, copyAssign{}, moveAssign{}, dtor{}; auto operator<=>(const Counts&) const = default; };
inline Counts g_counts;

struct PlainBase
{
	int value{}; std::string text{}; std::unique_ptr<int> heap{};
	explicit PlainBase(int v) : value{v}, text(static_cast<std::size_t>(v % 40), 'x'), heap{new int{v}} { ++g_counts.ctor; }
	PlainBase(int a, std::string t) : value{a}, text{std::move(t)}, heap{new int{a}} { ++g_counts.ctor; }
	PlainBase(const PlainBase& o) : value{o.value}, text{o.text}, heap{o.heap ? new int{*o.heap} : nullptr} { ++g_counts.copy; }
	PlainBase(PlainBase&& o) noexcept(false) : value{o.value}, text{std::move(o.text)}, heap{std::move(o.heap)} { o.value = -1; ++g_counts.move; }
	PlainBase& operator=(const PlainBase& o) { value = o.value; text = o.text; heap.reset(o.heap ? new int{*o.heap} : nullptr); ++g_counts.copyAssign; return *this; }
	PlainBase& operator=(PlainBase&& o) noexcept(false) { value = o.value; text = std::move(o.text); heap = std::move(o.heap); o.value = -1; ++g_counts.moveAssign; return *this; }
	~PlainBase() noexcept(false) { ++g_counts.dtor; }
	int read() const { return heap && *heap == value && static_cast<int>(text.size()) == value % 40 ? value : -2; }
};
struct VirtualBase
{
	int value{}; std::unique_ptr<int> heap{};
	explicit VirtualBase(int v) : value{v}, heap{new int{v}} { ++g_counts.ctor; }
	VirtualBase(int a, std::string t) : value{a}, heap{new int{a}} { (void)t; ++g_counts.ctor; }
	VirtualBase(const VirtualBase& o) : value{o.value}, heap{o.heap ? new int{*o.heap} : nullptr} { ++g_counts.copy; }
	VirtualBase(VirtualBase&& o) noexcept(false) : value{o.value}, heap{std::move(o.heap)} { o.value = -1; ++g_counts.move; }
	VirtualBase& operator=(const VirtualBase& o) { value = o.value; heap.reset(o.heap ? new int{*o.heap} : nullptr); ++g_counts.copyAssign; return *this; }
	VirtualBase& operator=(VirtualBase&& o) noexcept(false) { value = o.value; heap = std::move(o.heap); o.value = -1; ++g_counts.moveAssign; return *this; }
	virtual ~VirtualBase() noexcept(false) { ++g_counts.dtor; }
	virtual int read() const { return heap && *heap == value ? value : -2; }
};

// ---- what a new expectation looks like ----------------------------------------------------------------------
struct Setup
{
	int id{}; bool times{}; int lo{1}, hi{1};
	int shape{}; // 0 none, 1 lazy, 2 greedy, 3 both
	mm::LazySequence* lazy{}; mm::GreedySequence* greedy{};
	std::source_location loc{};
};
void onRan(int id);

template <typename Builder>
mm::ScopedExpectation attach(Builder&& b, const Setup& s)
{
	namespace ex = mm::expect;
	const auto fin = [&](auto&& bb) { return mm::ScopedExpectation{std::forward<decltype(bb)>(bb) and mm::then::invoke([id = s.id] { onRan(id); }), s.loc}; };
	switch (s.shape)
	{
	case 1: return fin(std::forward<Builder>(b) and ex::in_sequence(*s.lazy));
	case 2: return fin(std::forward<Builder>(b) and ex::in_sequence(*s.greedy));
	case 3: return fin(std::forward<Builder>(b) and ex::in_sequences(*s.lazy, *s.greedy));
	default: return fin(std::forward<Builder>(b));
	}
}

struct IOps
{
	bool hasL{}, hasR{}, rFirst{};
	std::string name;
	virtual ~IOps() = default;
	virtual std::size_t size() const = 0;
	virtual void create(void* m, int v, bool two) const = 0;
	virtual void copy(void* m, const void* o) const = 0;
	virtual void move(void* m, void* o) const = 0;
	virtual void copyAssign(void* m, const void* o) const = 0;
	virtual void moveAssign(void* m, void* o) const = 0;
	virtual void swap(void* a, void* b) const = 0;
	virtual void destroy(void* m) const = 0;
	virtual int read(const void* m) const = 0;
	virtual std::optional<mm::ScopedExpectation> expectDestruct(void* m, const Setup& s) const = 0;
	virtual std::optional<mm::ScopedExpectation> expectRelocate(void* m, const Setup& s) const = 0;
};

template <typename W, typename Base>
struct Ops final : IOps
{
	static constexpr bool L = std::derived_from<W, mm::LifetimeWatcher>, R = std::derived_from<W, mm::RelocationWatcher>;
	Ops(std::string n, bool first) { hasL = L; hasR = R; rFirst = first; name = std::move(n); }
	static W& at(void* m) { return *static_cast<W*>(m); }
	static const W& at(const void* m) { return *static_cast<const W*>(m); }
	std::size_t size() const override { return sizeof(W); }
	void create(void* m, int v, bool two) const override { if (two) new (m) W(v, std::string(static_cast<std::size_t>(v % 40), 'x')); else new (m) W(v); }
	void copy(void* m, const void* o) const override { new (m) W(at(o)); }
	void move(void* m, void* o) const override { new (m) W(std::move(at(o))); }
	void copyAssign(void* m, const void* o) const override { at(m) = at(o); }
	void moveAssign(void* m, void* o) const override { at(m) = std::move(at(o)); }
	void swap(void* a, void* b) const override { std::swap(at(a), at(b)); }
	void destroy(void* m) const override
	{
		if constexpr (std::has_virtual_destructor_v<Base>) static_cast<Base&>(at(m)).~Base(); // through the base class
		else at(m).~W();
	}
	int read(const void* m) const override { return static_cast<const Base&>(at(m)).read(); }
	std::optional<mm::ScopedExpectation> expectDestruct(void* m, const Setup& s) const override
	{
		if constexpr (L) return attach(at(m).expect_destruct(), s);
		else { (void)m; (void)s; return std::nullopt; }
	}
	std::optional<mm::ScopedExpectation> expectRelocate(void* m, const Setup& s) const override
	{
		if constexpr (R)
		{
			if (s.times) return attach(at(m).expect_relocate() and mm::expect::times(s.lo, s.hi), s);
			return attach(at(m).expect_relocate(), s);
		}
		else { (void)m; (void)s; return std::nullopt; }
	}
};
using OpsPtr = std::unique_ptr<IOps>;
OpsPtr plainL(); OpsPtr plainR(); OpsPtr plainRL(); OpsPtr plainLR();
OpsPtr virtL(); OpsPtr virtR(); OpsPtr virtRL(); OpsPtr virtLR();
void checkTraits();
