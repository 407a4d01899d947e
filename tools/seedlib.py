"""Development aid: writes /verif/seeded/<id>/ from a textual edit and a demonstration, and confirms them (not used by any check)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# cwd: the repository; exit 0 if the property holds for this demonstration
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
%s -std=c++20 -O0 -g %s -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" %s || exit 3
cd "$T" && %s timeout 120 ./demo
'''
PRE = '''#include "mimic++/mimic++.hpp"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
#include <optional>
namespace mm = mimicpp;
using mm::matches::_;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("broken: %s (line %d)\\n", #__VA_ARGS__, __LINE__); std::exit(1); } } while (0)
struct Violation {};
struct Rep : mm::IReporter
{
	static inline int none, inapplicable, full, unfulfilled, error, unhandled; static inline std::vector<mm::MatchReport> last; static inline mm::StringT text;
	static void reset() { none = inapplicable = full = unfulfilled = error = unhandled = 0; last.clear(); }
	[[noreturn]] void report_no_matches(mm::CallReport, std::vector<mm::MatchReport> r) override { ++none; last = r; throw Violation{}; }
	[[noreturn]] void report_inapplicable_matches(mm::CallReport, std::vector<mm::MatchReport> r) override { ++inapplicable; last = r; throw Violation{}; }
	void report_full_match(mm::CallReport, mm::MatchReport) noexcept override { ++full; }
	void report_unfulfilled_expectation(mm::ExpectationReport) override { ++unfulfilled; }
	void report_error(mm::StringT) override { ++error; }
	void report_unhandled_exception(mm::CallReport, mm::ExpectationReport, std::exception_ptr) override { ++unhandled; }
};
template <typename F> bool violates(F&& f) { try { f(); return false; } catch (const Violation&) { return true; } }
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def seed(sid, prop, edits, demo, needs, breaks, cc="g++", flags="", libs="", env="", pre=True, raw_demo=None):
    d = os.path.join(V, "seeded", sid)
    w = tempfile.mkdtemp(prefix="seed_")
    sh("cp -a %s/include %s/include && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (REPO, w, w))
    for f, old, new in edits:
        p = os.path.join(w, "include/mimic++", f)
        s = open(p).read()
        assert s.count(old) >= 1, (sid, "pattern not found", old)
        assert s.count(old) == 1, (sid, "pattern not unique", old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=w).stdout
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(raw_demo if raw_demo else (PRE if pre else "") + demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (cc, flags, libs, env))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    good = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
    bad = sh(["bash", os.path.join(d, "demo.sh")], cwd=w)
    shutil.rmtree(w)
    ok = good.returncode == 0 and bad.returncode not in (0, 3)
    print("%-10s %s  unchanged rc=%s, changed rc=%s %s" % (sid, "ok" if ok else "BAD", good.returncode, bad.returncode, bad.stdout.strip().splitlines()[-1:] if ok else good.stdout[-1500:] + bad.stdout[-1500:]))
    return ok
