// C07/C08: run-time support of the generated signature programs. The generator (gen/sig.py) emits what has to happen as a list of steps;
// the trace below checks while the call runs that exactly these steps happen, on these objects, in this order.
#pragma once
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"
#include <any>
#include <functional>
#include <list>
#include <memory>
#include <set>
#include <span>
#include <typeinfo>

namespace mm = mimicpp;
using proto::fail; using proto::stat; using proto::Rng;

namespace sup
{
	template <typename...> struct L {};
	struct Counts { long copies = 0, moves = 0, live = 0; };
	inline Counts g_counts;
	struct Obj
	{
		long id; std::unique_ptr<long> heap; // the heap part makes use of dead or moved-from objects visible to the sanitizers
		explicit Obj(long i) : id{i}, heap{std::make_unique<long>(i)} { ++g_counts.live; }
		Obj(const Obj& o) : id{o.id}, heap{o.heap ? std::make_unique<long>(*o.heap) : nullptr} { ++g_counts.copies; ++g_counts.live; }
		Obj(Obj&& o) noexcept : id{o.id}, heap{std::move(o.heap)} { o.id = -1; ++g_counts.moves; ++g_counts.live; }
		Obj& operator=(const Obj& o) { id = o.id; heap = o.heap ? std::make_unique<long>(*o.heap) : nullptr; ++g_counts.copies; return *this; }
		Obj& operator=(Obj&& o) noexcept { heap = std::move(o.heap); id = o.id; o.id = -1; ++g_counts.moves; return *this; }
		~Obj() { --g_counts.live; id = -2; }
		// whoever takes its address or uses it next to a comma gets what the user overloaded
		void operator&() = delete;
		void operator&() const = delete;
		template <typename T> void operator,(T&&) const = delete;
		template <typename T> friend void operator,(T&&, const Obj&) = delete;
	};
	struct Mov
	{
		long id; std::unique_ptr<long> heap;
		explicit Mov(long i) : id{i}, heap{std::make_unique<long>(i)} { ++g_counts.live; }
		Mov(Mov&& o) noexcept : id{o.id}, heap{std::move(o.heap)} { o.id = -1; ++g_counts.moves; ++g_counts.live; }
		Mov& operator=(Mov&& o) noexcept { heap = std::move(o.heap); id = o.id; o.id = -1; ++g_counts.moves; return *this; }
		~Mov() { --g_counts.live; id = -2; }
	};
	struct Base { long id; explicit Base(long i) : id{i} {} Base(const Base& o) : id{o.id} { ++g_counts.copies; } virtual ~Base() = default; virtual long who() const = 0; };
	struct Derived final : Base { std::unique_ptr<long> heap; explicit Derived(long i) : Base{i}, heap{std::make_unique<long>(i)} {} long who() const override { return id * 2 + (*heap >= 0); } };
	struct Exc : std::exception { long n; std::shared_ptr<long> heap; explicit Exc(long v) : n{v}, heap{std::make_shared<long>(v)} {} };
	enum class En : int {};

	// ---- the value of any argument, as a number
	inline long valueOf(const Obj& o) { return o.id >= 0 && (!o.heap || *o.heap != o.id) ? -77 : o.id; }
	inline long valueOf(const Mov& o) { return o.id; }
	inline long valueOf(const Base& o) { return o.who(); }
	inline long valueOf(int v) { return v; }
	inline long valueOf(double v) { return static_cast<long>(v * 16); }
	inline long valueOf(En v) { return static_cast<long>(v); }
	inline long valueOf(std::nullptr_t) { return 0; }
	inline long valueOf(const std::string& s) { return static_cast<long>(proto::fnv(s)); }
	inline long valueOf(std::string_view s) { return static_cast<long>(proto::fnv(std::string{s})); }
	inline long valueOf(const Obj* p) { return static_cast<long>(reinterpret_cast<std::uintptr_t>(p)); }
	inline long valueOf(const char* p) { return static_cast<long>(reinterpret_cast<std::uintptr_t>(p)); }
	inline long valueOf(int (*p)(int)) { return static_cast<long>(reinterpret_cast<std::uintptr_t>(p)); }
	template <typename T> long valueOf(const std::unique_ptr<T>& p) { return static_cast<long>(reinterpret_cast<std::uintptr_t>(p.get())); }
	template <typename T> long valueOf(const std::shared_ptr<T>& p) { return static_cast<long>(reinterpret_cast<std::uintptr_t>(p.get())); }
	template <typename T> long valueOf(const std::reference_wrapper<T>& p) { return static_cast<long>(reinterpret_cast<std::uintptr_t>(std::addressof(p.get()))); }
	inline long valueOf(const std::vector<int>& v) { long r = 17; for (int x : v) r = r * 31 + x; return r; }
	inline long valueOf(const std::vector<bool>& v) { long r = 19; for (bool x : v) r = r * 31 + x; return r; }
	inline long valueOf(const std::vector<Mov>& v) { long r = 23; for (auto& x : v) r = r * 31 + x.id; return r; }
	inline long valueOf(std::span<int> v) { return static_cast<long>(reinterpret_cast<std::uintptr_t>(v.data())) + static_cast<long>(v.size()); }
	template <std::size_t n> long valueOf(const int (&v)[n]) { long r = 29; for (int x : v) r = r * 31 + x; return r; }
	inline long valueOf(const std::pair<int, std::string>& v) { return v.first + valueOf(v.second); }
	inline long valueOf(const std::any& v) { return v.has_value() ? 1000 + *std::any_cast<long>(&v) : -1; }

	// ---- mutation by an action
	inline void bump(Obj& o) { if (o.heap) { o.id += 1000; *o.heap = o.id; } }
	inline void bump(Mov& o) { o.id += 1000; }
	inline void bump(Derived&) {}
	inline void bump(Base& o) { o.id += 1000; }
	inline void bump(int& v) { v += 1000; }
	inline void bump(double& v) { v += 1000; }
	inline void bump(En& v) { v = static_cast<En>(static_cast<int>(v) + 1000); }
	inline void bump(std::string& s) { s += "-mutated by an action, and long enough to be on the heap"; }
	inline void bump(std::vector<int>& v) { v.push_back(77); }
	template <std::size_t n> void bump(int (&v)[n]) { v[0] += 1000; }
	template <typename T> void bump(T&) {}

	template <typename T> void take(T& x)
	{
		if constexpr (!std::is_const_v<T> && !std::is_array_v<T> && !std::is_function_v<T> && !std::is_abstract_v<T>) { T taken(std::move(x)); }
	}

	inline int plainFn(int x) { return x + 1; }
	inline int otherFn(int x) { return x + 2; }

	struct Step { int tag; bool final; };
	struct Trace
	{
		int params; std::string what;
		std::vector<Step> steps;
		std::size_t next = 0; bool calling = false;
		std::vector<const void*> addr; std::vector<long> val;
		long answered = 0, looks = 0;
		std::string log;

		[[noreturn]] void bad(const char* tags, const std::string& m) const { fail(std::string{tags} + (what[0] == 'f' ? ",C09" : ""), what + ": " + m + " [so far: " + log + "]"); }
		void begin(std::vector<const void*> a, std::vector<long> v)
		{
			addr = std::move(a); val = std::move(v); next = 0; calling = true; log.clear();
			g_counts.copies = g_counts.moves = 0;
			proto::log("call " + what);
		}
		void step(int tag)
		{
			log += std::to_string(tag) + " ";
			if (!calling) bad("C07", "an action runs although no call is in progress");
			if (next >= steps.size()) bad("C07", "action " + std::to_string(tag) + " runs after the last one expected");
			if (steps[next].tag != tag) bad("C07", "action " + std::to_string(tag) + " runs where action " + std::to_string(steps[next].tag) + " was expected");
			++next; ++stat("actions");
		}
		template <typename T> void see(int i, T& x)
		{
			const void* a; if constexpr (std::is_function_v<T>) a = reinterpret_cast<const void*>(&x); else a = std::addressof(x);
			if (!addr.at(i)) addr[i] = a;
			if (addr[i] != a) bad("C08", "argument " + std::to_string(i) + " is observed at another address than the one passed (or observed before)");
			if (valueOf(x) != val.at(i)) bad("C08", "argument " + std::to_string(i) + " has the value " + std::to_string(valueOf(x)) + " instead of " + std::to_string(val[i]));
			++stat("observed_arguments");
		}
		template <int... i, typename... T> void act(int tag, std::integer_sequence<int, i...>, bool types, T&... xs)
		{
			step(tag);
			if (sizeof...(T) != sizeof...(i)) bad("C08", "wrong number of arguments for action " + std::to_string(tag));
			if (!types) bad("C08", "action " + std::to_string(tag) + " receives its arguments with other types than declared");
			(see(i, xs), ...);
		}
		template <typename T> bool look(int i, const T& x) { if (!calling) return true; ++looks; see(i, x); return true; }
		void state(int tag, long n) { if (n != answered + 1) bad("C07", "stateful action " + std::to_string(tag) + " was run " + std::to_string(n) + " times for " + std::to_string(answered + 1) + " calls"); }
		[[noreturn]] void decoy(const char* which) const { bad("C07", std::string{"an action of another expectation runs: "} + which); }
		void end(long copies)
		{
			calling = false; ++answered;
			if (next != steps.size()) bad("C07", std::to_string(steps.size() - next) + " actions did not run");
			if (g_counts.copies != copies) bad("C08", "objects were copied " + std::to_string(g_counts.copies) + " times instead of " + std::to_string(copies));
			++stat("calls"); stat("copies_seen") += copies; stat("moves_seen") += g_counts.moves;
		}
		void post(int i, long now) const { if (now != val.at(i)) bad("C08", "after the call the caller's object of argument " + std::to_string(i) + " has the value " + std::to_string(now) + " instead of " + std::to_string(val[i])); }
		void same(const void* a, const void* b, const char* m) const { if (a != b) bad("C07,C08", std::string{"the result is not the object it should be: "} + m); ++stat("result_identities"); }
		void result(long a, long b) const { if (a != b) bad("C07,C08", "the result is " + std::to_string(a) + " instead of " + std::to_string(b)); ++stat("results"); }
	};
	// a callable which looks at argument i and always accepts
	template <int i> struct Look { Trace* t; bool operator()(const auto& x) const { return t->look(i, x); } };
	template <int i> auto look(Trace& t) { return mm::matches::predicate(Look<i>{&t}); }
	template <int i> auto reject(Trace& t) { return mm::matches::predicate([&t](const auto& x) { t.look(i, x); return false; }); }

	struct Case { void (*fn)(Rng&); const char* what; };
	inline std::vector<Case>& cases() { static std::vector<Case> c; return c; }
	// callables with a state of their own: behind a const call operator, behind a non-const one, and movable only
	template <typename F> struct CountedC { Trace& tr; int tag; F f; mutable long n = 0; template <typename... A> decltype(auto) operator()(A&... a) const { tr.state(tag, ++n); return f(a...); } };
	template <typename F> struct CountedM { Trace& tr; int tag; F f; long n = 0; template <typename... A> decltype(auto) operator()(A&... a) { tr.state(tag, ++n); return f(a...); } };
	template <typename F> struct CountedU { Trace& tr; int tag; F f; std::unique_ptr<long> n = std::make_unique<long>(0); template <typename... A> decltype(auto) operator()(A&... a) const { tr.state(tag, ++*n); return f(a...); } };
	template <typename F> CountedC(Trace&, int, F) -> CountedC<F>;
	template <typename F> CountedM(Trace&, int, F) -> CountedM<F>;
	template <typename F> CountedU(Trace&, int, F) -> CountedU<F>;
	struct Reg { Reg(void (*fn)(Rng&), const char* what) { cases().push_back({fn, what}); } };
}
