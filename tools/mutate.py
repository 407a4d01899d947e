#!/usr/bin/env python3
"""tools/mutate.py COUNT SEED [FILE...]: development aid, used by no check. Plants random small edits into a scratch copy of the headers and runs
unsanitised builds of the drivers against it; lists the edits nothing noticed (to be judged by hand: equivalent, or a gap)."""
import os, random, re, shutil, subprocess, sys, time, json
W = "/tmp/mutrun"
os.environ["MIMICPP_REPO"] = W
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vlib, checks
from vlib import Program, generated
from gen import ovl, sig
vlib.BUILD = "/tmp/mutrun_build"

SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r"&& ", "|| "), (r"\|\| ", "&& "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\+\+", "--"), (r"!(?=[a-z:(])", ""), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\blvalue\b", "rvalue"), (r"\brvalue\b", "lvalue"), (r"\bas_const\b", "non_const"), (r"\bnon_const\b", "as_const"), (r"\bany\b", "lvalue"),
         (r"std::move\((\w+)\)", r"\1"), (r"std::forward<\w+>\((\w+)\)", r"\1"), (r" - ", " + "), (r" \+ ", " - "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b0u\b", "1u"), (r"begin\(", "end("), (r"\bsatisfied\b", "unsatisfied"), (r"\bunsatisfied\b", "satisfied"), (r"\bsaturated\b", "satisfied"),
         (r"\bfull\b", "inapplicable"), (r"\binapplicable\b", "none"), (r"\bnone\b", "inapplicable"), (r"all_of", "any_of"), (r"any_of", "all_of"), (r"noexcept\(false\)", "noexcept"), (r"\bsend_fail\b", "send_warning"), (r"report_no_matches", "report_inapplicable_matches"),
         (r"std::decay_t|std::remove_cvref_t", "std::remove_reference_t"), (r" const&", "&"), (r"\breturn (?=[a-z])", "return !"), (r'"([^"]*[a-z{][^"]*)"', r'"\1~"'), (r"\b(\w+), (\w+)\b(?=\))", r"\2, \1"), (r"\bT&&", "const T&"), (r"\? (.*?) : (.*?);", r"? \2 : \1;"), (r"\.at\(0\)|\.front\(\)", ".back()"), (r"emplace_back", "emplace"), (r"\| std::views::reverse", "")]
DELETE = re.compile(r"^\t+(?!return|using|else|case|default|break|throw|static|const |auto |template|struct|class|public|private|requires|enum|friend|virtual|explicit|inline)[\w:]+[^=]*\(.*\);\s*$|^\t+\w+ = [^;]*;\s*$|^\t+\+\+\w+;\s*$|^\t+out = .*;\s*$")


def sites(files):
    r = []
    for f in files:
        p = "/repo/include/mimic++/" + f
        block = False
        for no, line in enumerate(open(p).read().split("\n")):
            s = line.strip()
            if s.startswith("/*"): block = True
            if block or s.startswith("//") or s.startswith("*") or s.startswith("#") or "static_assert" in s or not s:
                if "*/" in s: block = False
                continue
            code = line.split("  // ")[0]
            for pat, rep in SWAPS:
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if new != code: r.append((f, no, line, new))
            if DELETE.match(line): r.append((f, no, line, "\t;"))
    return r


O = "gcc-O0"
def drivers():
    u = lambda name, src, specs, **k: (Program(name, src, O, **k), specs)
    core = [u("core", checks.CORE_SRC, [(x, 600) for x in ("general", "reports", "nested", "faults", "order", "actions", "lifetime", "limits", "prefer", "latest")]),
            u("scale", ["scale/main.cpp"], [(x, 4) for x in ("counts", "crowd", "long", "wide", "deep")]),
            u("setup", ["setup/main.cpp", "setup/shapes.cpp", "setup/exps.cpp"], [("twins", 800), ("times", 200)]),
            u("rep-own", ["report/own.cpp"], [("own", 1600), ("default", 800), ("seqkind", 24)]),
            u("watch", checks.WATCH_SRC, [("calm", 1600), ("violating", 1600), ("traits", 1)])]
    gens = [(generated("sig", dict(sig.units(1, 3, 8), **{}), "sig", O), [("run", 800)]), (generated("ifc", sig.iface_units(1, 2, 4), "sig", O), [("run", 400)]), (generated("ovl", ovl.units(1, 4, 3), "ovl", O), [("run", 800)])]
    ext = [u("ext", checks.EXT_SRC, [("policies", 1600), ("matchers", 80), ("strings", 80)])]
    extp = [u("extp", checks.EXTP_SRC, [("printers", 80)])]
    prn = [u("print", checks.PRINT_SRC, [(x, 400) for x in ("scalars", "strings", "nested", "nested2", "odd")])]
    st = [u("str", checks.STR_SRC, [(t + "-exhaustive", 85) for t in ("char", "u8")] + [(t + "-random", 4) for t in ("char", "wchar")] + [("mock", 80)], extra=["-D__NO_CTYPE"])]
    mt = [u("match", checks.MATCH_SRC, [("values", 24), ("objects", 40), ("args", 40), ("ranges", 400), ("ranges2", 400), ("nested", 400), ("tuples", 40)])]
    con = [u("conc", ["conc/main.cpp"], [(x, 40) for x in ("churn", "unmatched", "handoff", "parallel")])]
    return {"Sequence.hpp": [core, ext], "ControlPolicy.hpp": [core, ext], "Expectation.hpp": [core, ext, gens, con], "ExpectationPolicies.hpp": [gens, core, ext, mt], "ExpectationBuilder.hpp": [core, gens, ext], "Mock.hpp": [gens, core], "Call.hpp": [gens, core],
            "Reports.hpp": [core, ext], "Reporter.hpp": [core, ext], "Matcher.hpp": [mt, st, ext], "String.hpp": [st, prn, ext], "Printer.hpp": [prn, extp, core], "ObjectWatcher.hpp": [core], "InterfaceMock.hpp": [gens], "TypeTraits.hpp": [gens, core, mt], "Utility.hpp": [gens, core, prn], "Fwd.hpp": [core, gens]}


def run(progs):
    vlib.build([p for p, _ in progs])
    jobs = []
    for p, specs in progs:
        for prof, n in specs:
            k = 4 if n >= 40 else 1
            for i in range(k): jobs.append((p, prof, i * (n // k), n // k))
    def one(j):
        rc, out, err = vlib.run_cmd([j[0].bin, j[1], "1", str(j[2]), str(j[3])], 60)
        return None if rc == 0 else "%s/%s %s" % (j[0].name, j[1], rc)
    with vlib.cf.ThreadPoolExecutor(8) as ex:
        return next((r for r in ex.map(one, jobs) if r), None)


def main():
    count, seed, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    D = drivers()
    S = sites(files or list(D))
    random.Random(seed).shuffle(S)
    # as many of each file's as its share of lines, but at most one edit of a line
    seen, done = set(), 0
    for f, no, old, new in S:
        if (f, no) in seen: continue
        seen.add((f, no))
        shutil.rmtree(W, ignore_errors=True); shutil.rmtree(vlib.BUILD, ignore_errors=True)
        shutil.copytree("/repo/include", W + "/include")
        p = W + "/include/mimic++/" + f
        lines = open(p).read().split("\n"); lines[no] = new; open(p, "w").write("\n".join(lines))
        open("/tmp/mutrun_probe.cpp", "w").write('#include "mimic++/mimic++.hpp"\nint main() { mimicpp::Mock<void(int)> m{}; mimicpp::ScopedExpectation e = m.expect_call(1); m(1); }\n')
        if subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-w", "-I" + W + "/include", "/tmp/mutrun_probe.cpp"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: continue
        done += 1
        vlib._tree_hash = None
        t, res = time.time(), None
        try:
            for g in drivers()[f]:
                res = run(g)
                if res: break
        except vlib.CompileError as e: res = "does not compile"
        print("%s %s:%d  %s  ->  %s   [%s, %.0f s]" % ("killed" if res else "SURVIVED", f, no + 1, old.strip(), new.strip(), res or "", time.time() - t), flush=True)
        if done >= count: break
    for d in (W, vlib.BUILD): shutil.rmtree(d, ignore_errors=True)


main()
