#pragma once
// C20: extensions supplied by users: policies, printers, matchers, string and character types.
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"
#include <list>
#include <map>
#include <memory>
#include <set>
#include <span>
namespace mm = mimicpp;
namespace M = mimicpp::matches;
using mm::matches::_;
using proto::fail; using proto::stat; using proto::Rng;

struct Rejected {};
struct Rec final : mm::IReporter
{
	struct Ev { char kind; std::vector<mm::MatchReport> all; std::vector<mm::CallReport> call; std::vector<mm::ExpectationReport> exp; };
	static inline std::vector<Ev> evs;
	[[noreturn]] void report_no_matches(mm::CallReport c, std::vector<mm::MatchReport> m) override { evs.push_back({'N', std::move(m), {std::move(c)}, {}}); throw Rejected{}; }
	[[noreturn]] void report_inapplicable_matches(mm::CallReport c, std::vector<mm::MatchReport> m) override { evs.push_back({'I', std::move(m), {std::move(c)}, {}}); throw Rejected{}; }
	void report_full_match(mm::CallReport c, mm::MatchReport m) noexcept override { evs.push_back({'F', {std::move(m)}, {std::move(c)}, {}}); }
	void report_unfulfilled_expectation(mm::ExpectationReport e) override { evs.push_back({'U', {}, {}, {std::move(e)}}); }
	void report_error(mm::StringT s) override { fail("C20", "an error is reported: " + s); }
	void report_unhandled_exception(mm::CallReport c, mm::ExpectationReport e, std::exception_ptr) override { evs.push_back({'X', {}, {std::move(c)}, {std::move(e)}}); }
};
inline bool has(const std::string& s, const std::string& part) { return s.find(part) != std::string::npos; }
void policiesCase(Rng&);
void controlCase(Rng&);
void matchersCase(Rng&);
void stringsCase(Rng&);
