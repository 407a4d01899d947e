// Text rendered from reports: parsed back into facts and compared with the report objects (which the model verified).
#pragma once
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace eng { namespace mm = mimicpp; }
namespace eng::text
{
	inline std::string g_kind, g_text; inline int g_count = 0;
	struct Out {};
	inline void onSuccess(const mm::StringT& s) { g_kind = "success"; g_text = s; ++g_count; }
	inline void onWarning(const mm::StringT& s) { g_kind = "warning"; g_text = s; ++g_count; }
	inline void onFail(const mm::StringT& s) { g_kind = "fail"; g_text = s; ++g_count; throw Out{}; }
	using Tap = mm::BasicReporter<&onSuccess, &onWarning, &onFail>;

	inline std::string trim(const std::string& s)
	{
		const auto b = s.find_first_not_of(" \t"); if (b == std::string::npos) return "";
		return s.substr(b, s.find_last_not_of(" \t") - b + 1);
	}
	inline std::vector<std::string> lines(const std::string& s)
	{
		std::vector<std::string> r; std::istringstream in{s}; std::string l;
		while (std::getline(in, l)) r.push_back(trim(l));
		return r;
	}
	inline bool has(const std::string& t, const std::string& n) { return t.find(n) != std::string::npos; }
	[[noreturn]] inline void bad(const std::string& why) { proto::fail("C13", "rendered text: " + why + "; text: " + proto::oneLine(g_text)); }
	// without columns and function names, which compilers spell differently
	inline std::string neutral(const std::string& t)
	{
		std::string r; std::istringstream in{t};
		for (std::string l; std::getline(in, l);)
		{
			if (const auto p = l.find("], "); p != std::string::npos)
				if (const auto c = l.rfind(':', p); c != std::string::npos && l.find_first_not_of("0123456789", c + 1) == p) l.resize(c);
			r += l + "\n";
		}
		return r;
	}
	inline void expectKind(const char* k) { proto::trace(g_kind + ": " + neutral(g_text)); if (g_count != 1 || g_kind != k) proto::fail("C13,C16", "a report is passed on " + std::to_string(g_count) + " times, as '" + g_kind + "', expected once as '" + k + "'"); }
	inline std::string locText(const std::source_location& l) { return std::string{l.file_name()} + "[" + std::to_string(l.line()) + ":" + std::to_string(l.column()) + "]"; }

	inline void call(const std::string& t, const mm::CallReport& c)
	{
		if (!has(t, locText(c.fromLoc))) bad("the location of the call is missing");
		const char* cn = c.fromConstness == mm::Constness::as_const ? "constness: const" : c.fromConstness == mm::Constness::non_const ? "constness: mutable" : "constness: any";
		const char* vc = c.fromCategory == mm::ValueCategory::lvalue ? "category: lvalue" : c.fromCategory == mm::ValueCategory::rvalue ? "category: rvalue" : "category: any";
		if (!has(t, cn)) bad(std::string{"missing: "} + cn);
		if (!has(t, vc)) bad(std::string{"missing: "} + vc);
		if (!has(t, std::string{"return type: "} + c.returnTypeIndex.name())) bad("wrong or missing return type");
		std::size_t pos = 0;
		for (std::size_t i = 0; i < c.argDetails.size(); ++i)
		{
			pos = t.find("arg[" + std::to_string(i) + "]: {", pos);
			if (pos == std::string::npos) bad("argument " + std::to_string(i) + " is missing");
			const auto end = t.find("\n\t}", pos);
			if (end == std::string::npos) bad("argument " + std::to_string(i) + " has no end");
			const std::string block = t.substr(pos, end + 1 - pos);
			if (!has(block, std::string{"type: "} + c.argDetails[i].typeIndex.name() + ",") || !has(block, "value: " + c.argDetails[i].stateString + "\n")) bad("argument " + std::to_string(i) + " is shown wrongly");
			pos = end;
		}
		if (has(t, "arg[" + std::to_string(c.argDetails.size()) + "]: {")) bad("more arguments than there are");
	}
	// one block "... expectation: {" .. "}"
	inline void match(const std::string& block, const mm::MatchReport& m, const std::string& wantReason)
	{
		bool all = true; for (auto& x : m.expectationReports) all = all && x.isMatching;
		const bool appl = std::holds_alternative<mm::state_applicable>(m.controlReport);
		const char* heading = !all ? "Unmatched expectation" : appl ? "Matched expectation" : "Inapplicable, but otherwise matched expectation";
		if (block.rfind(heading, 0) != 0) bad(std::string{"expected a block headed '"} + heading + "', got " + block.substr(0, 40));
		if (all && !appl && !has(block, wantReason)) bad("the reason for being inapplicable is missing or wrong, expected " + wantReason);
		if (m.sourceLocation && !has(block, locText(*m.sourceLocation))) bad("the location of an expectation is missing");
		std::multiset<std::string> failed, passed, wf, wp; int mode = 0;
		for (auto& l : lines(block))
		{
			if (l == "failed:") mode = 1;
			else if (l == "passed:") mode = 2;
			else if (l == "}") mode = 0;
			else if (mode) (mode == 1 ? failed : passed).insert(!l.empty() && l.back() == ',' ? l.substr(0, l.size() - 1) : l);
		}
		for (auto& x : m.expectationReports) if (x.description) (x.isMatching ? wp : wf).insert(*x.description);
		if (failed != wf) bad("the violated requirements are not exactly those listed as failed");
		if (passed != wp) bad("the met requirements are not exactly those listed as passed");
	}
	inline std::vector<std::string> blocks(const std::string& t)
	{
		// every block starts at a line ending in "expectation: {" and ends with a line "}"
		std::vector<std::string> r; std::string cur; bool in = false; std::istringstream s{t}; std::string l;
		while (std::getline(s, l))
		{
			if (!in && l.size() >= 14 && l.substr(l.size() - 14) == "expectation: {") { in = true; cur.clear(); }
			if (in) { cur += l + "\n"; if (l == "}") { r.push_back(cur); in = false; } }
		}
		if (in) bad("unterminated block");
		return r;
	}
	template <typename Reason> void rejectionText(bool none, const mm::CallReport& c, const std::vector<mm::MatchReport>& ms, Reason&& reason)
	{
		++proto::stat("texts_checked");
		if (g_text.rfind(none ? "No match" : "No applicable match", 0) != 0) bad("wrong headline");
		const auto first = g_text.find("expectation: {");
		call(g_text.substr(0, first), c);
		const auto bs = blocks(g_text);
		if (bs.size() != ms.size()) bad("lists " + std::to_string(bs.size()) + " instead of " + std::to_string(ms.size()) + " expectations");
		for (std::size_t i = 0; i < bs.size(); ++i) match(bs[i], ms[i], reason(ms[i]));
		if (none && ms.empty() && !has(g_text, "No expectations available")) bad("does not say that there is no expectation");
		if (none && !ms.empty() && !has(g_text, std::to_string(ms.size()) + " available expectation(s)")) bad("states a wrong number of expectations");
	}
	template <typename Reason> void rejection(bool none, const mm::CallReport& c, const std::vector<mm::MatchReport>& ms, Reason&& reason)
	{
		Tap tap{}; g_count = 0;
		try { if (none) tap.report_no_matches(c, ms); else tap.report_inapplicable_matches(c, ms); } catch (const Out&) {}
		expectKind("fail");
		rejectionText(none, c, ms, reason);
	}
	inline void full(const mm::CallReport& c, const mm::MatchReport& m)
	{
		Tap tap{}; g_count = 0;
		tap.report_full_match(c, m);
		expectKind("success");
		++proto::stat("texts_checked");
		call(g_text.substr(0, g_text.find("expectation: {")), c);
		const auto bs = blocks(g_text);
		if (bs.size() != 1) bad("lists not exactly one expectation");
		match(bs[0], m, "");
	}
	inline void expectation(const std::string& t, const mm::ExpectationReport& r)
	{
		if (r.sourceLocation && !has(t, locText(*r.sourceLocation))) bad("the location of an expectation is missing");
		if (r.timesDescription && !has(t, *r.timesDescription)) bad("the call count phrase is missing");
		std::multiset<std::string> got, want; bool in = false;
		for (auto& l : lines(t))
		{
			if (l == "expects:") in = true;
			else if (in && !l.empty() && l.back() == ',') got.insert(l.substr(0, l.size() - 1));
			else in = false;
		}
		for (auto& d : r.expectationDescriptions) if (d) want.insert(*d);
		if (got != want) bad("the requirements are not exactly those of the report");
	}
	inline void unfulfilledText(const mm::ExpectationReport& r)
	{
		if (!has(g_text, "Unfulfilled")) bad("does not say that an expectation is unfulfilled");
		expectation(g_text, r);
	}
	inline void unfulfilled(const mm::ExpectationReport& r)
	{
		if (std::uncaught_exceptions()) return;
		Tap tap{}; g_count = 0;
		try { tap.report_unfulfilled_expectation(r); } catch (const Out&) {}
		expectKind("fail");
		++proto::stat("texts_checked");
		unfulfilledText(r);
	}
	inline void error(const std::string& m)
	{
		if (std::uncaught_exceptions()) return;
		Tap tap{}; g_count = 0;
		try { tap.report_error(m); } catch (const Out&) {}
		expectKind("fail");
		if (!has(g_text, m)) bad("error message is altered");
	}
	inline void unhandled(const mm::CallReport& c, const mm::ExpectationReport& r, std::exception_ptr e)
	{
		Tap tap{}; g_count = 0;
		tap.report_unhandled_exception(c, r, e);
		expectKind("warning");
		++proto::stat("texts_checked");
		const auto p = g_text.rfind("For call");
		if (p == std::string::npos) bad("the call is missing");
		call(g_text.substr(p), c);
		expectation(g_text.substr(0, p), r);
		try { std::rethrow_exception(e); }
		catch (const std::exception& x) { if (!has(g_text, std::string{"what: "} + x.what())) bad("what() of the exception is missing"); }
		catch (...) { if (!has(g_text, "Unknown exception")) bad("does not say that the exception type is unknown"); }
	}
}
