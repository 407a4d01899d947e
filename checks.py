"""One function per property."""
import os
import re
import time
import vlib
from gen import ovl, sig, wide
from vlib import Program, build, finish, generated

CORE_SRC = ["core/main.cpp", "core/mock0.cpp", "core/mock1.cpp", "core/mock2.cpp", "core/mock3.cpp"]
CORE_RULE = ("A case is one seeded random history of operations (create, move, overwrite, destroy expectations; calls that match, that nothing matches and "
             "that are nested in actions; mock moves; sequence hand-over; rejected set-ups) run against the library and the reference model in lockstep. "
             "Non-trivial: at least one call had several usable candidates and at least one call was answered; distinct by the fingerprint of creations, answers, rejections and destructions.")
CORE_ASSUME = ["argument domain of the driver: ints, predicates as masks over 8 values",
               "requirements attached per expectation: two argument predicates, overload qualifiers, two custom policies; two side effects; one finalizer",
               "expectations in several sequences at once: any choice not dominated in all shared sequences is accepted"]


def core(ctx):
    p = Program("core", CORE_SRC)
    build([p])
    return p


def n(ctx, quick, factor=20):
    return quick if ctx.tier == "quick" else quick * factor


WATCH_SRC = ["watch/%s.cpp" % x for x in ("main", "plain", "virt", "traits")]
WATCH_RULE = " Watched objects: a case is one random history of constructing, moving, assigning, swapping and destroying up to five watched objects with destruction and relocation expectations."
SCALE_RULE = (" Large numbers (program scale): single expectations answering up to 70001 calls with limits around 127/255/32767/65535, up to 1100 live expectations, sequences longer than 66000 entries, up to 1500 optional entries to choose from, calls nested 600 deep; "
              "distinct by limits, answers and positions.")


TEXT_RULE = " Texts (program texts): a case makes up reports of every shape (repeated, missing and odd descriptions, up to 70 expectations with up to 30 requirements, boundary counts, odd locations), has them rendered by BasicReporter, DefaultReporter and print, and parses the texts back (profile long: real reports of arguments, expected values and descriptions of up to 70000 characters)."


def core_check(profiles, uar=False, scale=(), watch=(), texts=0):
    def f(ctx):
        progs = [Program("core", CORE_SRC)]
        if scale:
            progs.append(Program("scale", ["scale/main.cpp"]))
        if watch:
            progs.append(Program("watch", WATCH_SRC, "gcc-asan0"))
        if texts:
            progs.append(Program("texts", ["report/texts.cpp"], "gcc-asan0"))
        build(progs)
        if uar:
            ctx.env = vlib.UAR
        by = {p.name: p for p in progs}
        # the longest ones first
        ctx.run_many([(by["scale"], prof, n(ctx, cnt, 4), cnt) for prof, cnt in scale] + [(by["core"], prof, n(ctx, cnt), 8) for prof, cnt in profiles] + [(by["watch"], prof, n(ctx, cnt), 8) for prof, cnt in watch] + ([(by["texts"], "run", n(ctx, texts), 8), (by["texts"], "long", n(ctx, texts // 4), 8)] if texts else []))
        return finish(ctx, CORE_RULE + (SCALE_RULE if scale else "") + (WATCH_RULE if watch else "") + (TEXT_RULE if texts else ""), CORE_ASSUME)
    return f


def simple(name, sources, specs, rule, assumptions, flavour="gcc-asan0", extra=(), uar=False, thorough_flavours=()):
    """One harness program; specs: (profile, quick count, thorough factor[, shards])."""
    def f(ctx):
        progs = [Program(name, sources, flavour, extra=extra)]
        if ctx.tier == "thorough":
            progs += [Program(name, sources, fl, extra=extra) for fl in thorough_flavours]
        build(progs)
        if uar:
            ctx.env = vlib.UAR
        for p in progs:
            ctx.run_many([(p, s[0], n(ctx, s[1], s[2]), s[3] if len(s) > 3 else 8) for s in specs])
        return finish(ctx, rule, assumptions)
    return f


def build_public(ctx, progs, config=""):
    """Builds programs which use nothing but the documented interface: if one stops compiling, that is a violation, not a broken harness."""
    try:
        build(progs)
        return True
    except vlib.CompileError as e:
        t = str(e)
        if "timed out" in t or "Killed" in t or "internal compiler error" in t or "No space left" in t:
            raise
        ctx.findings.append(vlib.Finding(("%s: does not compile" % progs[0].name) + (" with " + config if config else ""), "a well-formed program no longer compiles: " + next((l for l in t.splitlines() if " error: " in l), "")[-250:], t))
        return False


def gen_check(mod, name, units, per, runs, batches, rule, assumptions, uar=False, core_profiles=(), flavours=("clang-addr", "gcc-asan0", "clang-asan0")):
    """Programs generated from the seed; thorough: further batches from other seeds."""
    def f(ctx):
        if core_profiles:
            p = core(ctx)
            ctx.run_many([(p, prof, n(ctx, cnt), 8) for prof, cnt in core_profiles])
        if uar:
            ctx.env = vlib.UAR
        for b in range(1 if ctx.tier == "quick" else batches):
            src = mod.units(ctx.seed if b == 0 else ctx.seed * 1000 + b, units, per)
            p = generated(name, src, name, flavours[b % len(flavours)])
            if build_public(ctx, [p]):
                ctx.run_many([(p, "run", runs * (1 if ctx.tier == "quick" else 5), 8)])
            ctx.stats.setdefault(name + "/generated", {"programs": 0})["programs"] += units * per
        return finish(ctx, rule, assumptions)
    return f


def c06(ctx):
    p = Program("setup", ["setup/main.cpp", "setup/shapes.cpp", "setup/exps.cpp"], "gcc-asan0")
    w = Program("watch", WATCH_SRC, "gcc-asan0")
    build([p, w])
    ctx.run_many([(p, "twins", n(ctx, 4000, 15), 8), (p, "times", n(ctx, 1000, 15), 8), (w, "calm", n(ctx, 1600), 8), (w, "violating", n(ctx, 800), 8)])
    return finish(ctx, "A case is one random history run twice, without and with rejected or abandoned set-ups between its steps; both traces must be equal and every attempt accepted exactly if valid. "
                  "Profile times: 40 pairs of limits from boundaries and random integers. Distinct by the trace (with at least one answered call). Watched objects: random histories in which destructions are expected a first and a second time, before and after copies, moves and assignments.",
                  ["limits: boundary values of int and random ones; sequences: up to 4 per expectation, 14 ways of attaching"])


def c09(ctx):
    rule = ("Overload sets: a case is one generated set of signatures (1 to 8, sharing results or not, all combinations of const, reference and noexcept qualifiers) with random live expectations, set up through random views of the mock; "
            "every call's invocability, noexcept, result and overload is compared with a plain class declaring the same operators, and the answering expectation with the overload. "
            "Interfaces: a case is a run of a generated interface mocked by the macros (arity up to 16; up to 64 parameters and 36 overloads in the profile wide). Distinct by generated part, expectations and answers.")
    batches = 1 if ctx.tier == "quick" else 10
    for b in range(batches):
        s = ctx.seed if b == 0 else ctx.seed * 1000 + b
        o = generated("ovl", ovl.units(s, 8, 3), "ovl", "clang-O0" if b % 2 == 0 else "gcc-O0")
        i = generated("sig", sig.iface_units(s, 8, 4), "sig", "clang-addr" if b % 2 == 0 else "gcc-asan0")
        w = generated("wide", wide.units(s), "wide", "gcc-O0" if b % 2 == 0 else "clang-O0")
        if build_public(ctx, [w, o, i]):
            k = 1 if ctx.tier == "quick" else 5
            ctx.run_many([(o, "run", 1600 * k, 8), (i, "run", 800 * k, 8), (w, "run", 400 * k, 8)])
    return finish(ctx, rule, ["overloads by parameter types of the pool in gen/ovl.py, arity up to 3", "rvalue-qualified interface methods are not supported by the macros"])


LIBS = {"catch2": ["/usr/lib/libCatch2.a"], "gtest": ["-lgtest", "-lpthread"], "doctest": [], "boost": ["/usr/lib/x86_64-linux-gnu/libboost_unit_test_framework.a"]}


def c16(ctx):
    own = Program("rep-own", ["report/own.cpp"], "gcc-asan0")
    fw = [Program("rep-" + f, ["report/%s.cpp" % f], "gcc-asan0", libs=LIBS[f]) for f in LIBS]
    build([own] + fw)
    ctx.run_many([(own, "own", n(ctx, 8000, 15), 8), (own, "default", n(ctx, 4000, 15), 8), (own, "seqend", 1, 1), (own, "seqkind", n(ctx, 48, 5), 4)] + [(p, "run", n(ctx, 2400, 15), 4) for p in fw])
    return finish(ctx, "A case is one random scenario (calls, nested calls, calls from destructors during unwinding, throwing requirements, expectations dropped, unfulfilled or passed by an unrelated exception, violations swallowed by the code under test) run under: "
                  "own reporters exchanged at random between the operations; the default reporter (initial, with and without stream); a capturing BasicReporter; and as a test of Catch2, doctest, GoogleTest and Boost.Test with a listener that records what the framework was told. "
                  "A model predicts every report; the texts must equal the captured ones. Distinct by the expected reports.",
                  ["GoogleTest does not support warnings (nothing is expected there)", "the text of a success is not available from doctest"])


def c17(ctx):
    src = ["conc/main.cpp"]
    t, a = Program("conc", src, "clang-tsan"), Program("conc", src, "gcc-asan0")
    progs = [t, a] + ([Program("conc", src, "gcc-tsan"), Program("conc", src, "gcc-O2")] if ctx.tier == "thorough" else [])
    build(progs)
    # the recorded race (an expectation's count is written without the lock) is reproduced by its own profile and must not hide others
    supp = {"TSAN_OPTIONS": vlib.SAN_ENV["TSAN_OPTIONS"] + ":suppressions=" + os.path.join(vlib.VERIF, "harness", "conc", "known.supp")}
    for p in progs:
        k = 1 if p is t else 0.5
        specs = [(p, prof, int(n(ctx, c, 40) * k), 8 if prof != "handoff" else 4) for prof, c in (("churn", 240), ("unmatched", 240), ("handoff", 160), ("independent", 240), ("parallel", 240), ("crossfire", 240))]
        racy = ("parallel", "crossfire")
        ctx.run_many([x for x in specs if x[1] not in racy])
        ctx.run_many([x for x in specs if x[1] in racy], supp)
    ctx.run_many([(t, "concurrent-matching", 1, 1)])
    return finish(ctx, "A case is one run of 2 to 7 threads over one mock (profile independent: over own mocks) with delays injected into predicates, side effects and reports: threads create, move and destroy expectations while others do the same and call "
                  "(profiles: answered calls one after another; calls never answered, in parallel; calls answered in parallel by different expectations; expectations destroyed by other threads than those they answer; operations while an action is blocked). Watched by ThreadSanitizer (and AddressSanitizer); "
                  "every thread knows exactly which of its expectations must answer or be listed, foreign ones may be listed only if they lived during the call, and all counts must add up. Distinct by the interleaving of all operations.",
                  ["expectations outside of sequences (documented as not thread-safe)", "reporters are exchanged only between the runs"])


def c20(ctx):
    a = Program("ext", EXT_SRC, "gcc-asan0")
    b = Program("extp", EXTP_SRC, "gcc-asan0")
    c = Program("ext-catch2", ["ext/catch2.cpp"], "gcc-asan0", extra=["-DMIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION"], libs=["/usr/lib/libCatch2.a"])
    if build_public(ctx, [c, a, b]):
        ctx.run_many([(c, "run", n(ctx, 240, 10), 8), (a, "policies", n(ctx, 6000, 20), 8), (a, "matchers", n(ctx, 400, 10), 8), (a, "strings", n(ctx, 600, 10), 8), (b, "printers", n(ctx, 400, 10), 8)])
    return finish(ctx, "Policies: a case is one random set of expectations assembled from recording user policies (requirements, side effects, finalizers, own times policies) mixed with built-in ones, driven by random calls; a model predicts which policy is asked, informed and finalised, in which order. "
                  "Matchers: adapted by member functions or by traits (or both), plain, nested in the element-wise matchers, through mock calls. Strings: user string types and character types through the string matchers and the printer. "
                  "Catch2: Catch2's own matchers (built-in, combined, written by users) as requirements decide and describe as in Catch2. Printers: values of 31 types with printers of the user, nested in ranges, tuples, optionals, in reports and descriptions. Distinct by outcomes.",
                  ["extension points: requirement, side effect, finalizer and control policies, custom::Printer, matcher_traits, string_traits, string_case_fold_converter"])


MATCH_SRC = ["match/%s.cpp" % x for x in ("objects", "tuples3", "tuples4", "tuples5", "tuples1", "tuples2", "values", "values2", "args", "ranges", "ranges2", "nested", "main")]
PRINT_SRC = ["print/%s.cpp" % x for x in ("main", "scalars", "strings", "nested", "nested2", "odd")]
STR_SRC = ["str/%s.cpp" % x for x in ("main", "char", "wide", "wide2", "uchar", "mock")]
EXT_SRC = ["ext/%s.cpp" % x for x in ("main", "policies", "matchers", "strings")]
EXTP_SRC = ["ext/%s.cpp" % x for x in ("printers", "printers1", "printers2", "printers3")]
FMT = ["-DMIMICPP_CONFIG_USE_FMT=1", "-DFMT_HEADER_ONLY"]
# name: flavour, standard, flags, environment
CONFIGS = {
    "gcc -O0 C++20 std::format asserts": ("gcc-O0", None, ["-ftrivial-auto-var-init=zero"], {}),
    "clang -O2/-O0 C++23 std::format NDEBUG": ("clang-O2", "c++23", ["-DNDEBUG", "-U_GLIBCXX_ASSERTIONS"], {}),
    "gcc -O0 C++20 fmt NDEBUG prefixed-macros pattern": ("gcc-O0", None, FMT + ["-DNDEBUG", "-DMIMICPP_CONFIG_ONLY_PREFIXED_MACROS", "-ftrivial-auto-var-init=pattern"], {"MALLOC_PERTURB_": "165"}),
    # thorough only
    "gcc -O3 C++23 NDEBUG": ("gcc-O3", "c++23", ["-DNDEBUG", "-U_GLIBCXX_ASSERTIONS"], {"MALLOC_PERTURB_": "90"}),
    "clang -O0 C++20 NDEBUG": ("clang-O0", None, ["-DNDEBUG"], {}),
    "clang -O2 C++23 fmt": ("clang-O2", "c++23", FMT, {}),
    "gcc -O0 C++20 debug-containers": ("gcc-O0", None, ["-D_GLIBCXX_DEBUG"], {}),
}


def c22(ctx):
    """The same seeded programs under several builds; every case's recorded trace must be the same."""
    quick = ctx.tier == "quick"
    names = list(CONFIGS)[:3 if quick else None]
    f = 1 if quick else 8

    def configured(name, sources, extra=(), make=None, libs=()):
        r = []
        for c in names:
            fl, std, flags, env = CONFIGS[c]
            if fl == "clang-O2" and quick and name in ("ext", "extp", "str", "match"):
                fl = "clang-O0"  # optimising these takes minutes
            p = make(fl, flags) if make else Program(name, sources, fl, extra=list(flags) + list(extra), libs=libs)
            p.std, p.config, p.env = std, c, env
            r.append(p)
        return r
    def gen(mod, name, units):
        def make(fl, flags):
            u = {k: re.sub(r"(?<![\w])(MOCK_METHOD|MOCK_OVERLOADED_METHOD|ADD_OVERLOAD|SCOPED_EXP)\b", lambda m: "MIMICPP_" + {"SCOPED_EXP": "SCOPED_EXPECTATION"}.get(m[1], m[1]), v) for k, v in units.items()} if any("PREFIXED" in x for x in flags) else units
            return generated(name, u, name, fl, extra=flags)
        return configured(name, None, make=make)

    core_, watch, setup = configured("core", CORE_SRC), configured("watch", WATCH_SRC), configured("setup", ["setup/main.cpp", "setup/shapes.cpp", "setup/exps.cpp"])
    scale, rep, str_ = configured("scale", ["scale/main.cpp"]), configured("rep-own", ["report/own.cpp"]), configured("str", STR_SRC, ["-D__NO_CTYPE"])
    texts = configured("texts", ["report/texts.cpp"])
    ext, extp, prn = configured("ext", EXT_SRC), configured("extp", EXTP_SRC), configured("print", PRINT_SRC)
    match = configured("match", MATCH_SRC)
    sigs, ovls = gen(sig, "sig", sig.iface_units(ctx.seed, 2, 4)), gen(ovl, "ovl", ovl.units(ctx.seed, 2, 2))
    groups = [(x, 400 * f, 4, core_) for x in ("general", "reports", "nested", "faults", "order", "actions", "lifetime", "limits", "prefer", "latest")]
    groups += [(x, 800 * f, 4, watch) for x in ("calm", "violating")] + [("twins", 400 * f, 4, setup), ("times", 200 * f, 4, setup)]
    groups += [(x, 2 * f, 2, scale) for x in ("counts", "crowd", "long", "wide", "deep")] + [("own", 800 * f, 4, rep), ("default", 400 * f, 4, rep), ("seqkind", 24, 2, rep), ("run", 400 * f, 4, texts), ("long", 60 * f, 2, texts)]
    groups += [(t + "-random", 2 * f, 1, str_) for t in STR_TYPES] + [(t + "-binary", 23, 2, str_) for t in STR_TYPES] + [("mock", 40 * f, 4, str_)]
    groups += [("policies", 800 * f, 4, ext), ("matchers", 40 * f, 4, ext), ("strings", 60 * f, 4, ext), ("printers", 60 * f, 4, extp)]
    groups += [(x, 200 * f, 4, prn) for x in ("strings", "nested2", "odd")]
    # numbers are formatted by the backend, so these are compared for one backend
    groups += [(x, 200 * f, 4, [p for p in prn if "fmt" not in p.config]) for x in ("scalars", "nested")]
    groups += [("run", 200 * f, 4, sigs), ("run", 200 * f, 4, ovls)]
    late = [("run", 200 * f, 4, configured("rep-" + x, ["report/%s.cpp" % x], libs=LIBS[x])) for x in LIBS]
    late += [(x, 200, 4, match) for x in ("args", "ranges", "ranges2", "nested", "tuples")]
    progs, more = [], []
    for gs, ps in ((groups, progs), (late, more)):
        for g in gs:
            ps += [p for p in g[3] if p not in ps]
    ok = True
    try:
        build(progs)
        if not quick or time.time() - ctx.t0 < 420:  # on a slow machine the rest would not end in time
            build(more)
            groups += late
            progs += more
    except vlib.CompileError:
        for c in names:
            ok = build_public(ctx, [p for p in progs + more if p.config == c], c) and ok
    if ok:
        equal, distinct = ctx.compare(groups)
        refs = {p.name: p for p in progs if p.config == names[0]}
        ctx.memcheck([(refs["core"], x, 8 * f) for x in ("general", "reports", "faults", "nested", "order", "lifetime")] + [(refs["watch"], x, 60 * f) for x in ("calm", "violating")] + [(refs["rep-own"], "own", 60 * f), (refs["ext"], "policies", 40 * f), (refs["print"], "nested2", 8 * f), (refs["print"], "odd", 8 * f), (refs["setup"], "twins", 8 * f)])
    else:
        equal, distinct = 1, 1
    if late[0] not in groups:
        names.append("(matchers and test frameworks not compared for lack of time)")
    return finish(ctx, "A case is one seeded random program of the other checks (histories, watched objects, set-ups, reporters and test frameworks, matchers, strings, printing, extensions, generated interfaces and overload sets), run in every configuration; everything its monitors recorded - "
                  "decisions, results, traces, texts with type names and addresses removed - is digested and must be equal to the first configuration's. Evaluations: comparisons. Distinct by the digest. In addition memcheck watches the first configuration for uses of uninitialised memory.",
                  ["configurations: " + "; ".join(names), "libstdc++ only; the ICU backends (uni_algo) and trompeloeil are not installed"], evaluations=equal, distinct=distinct)


STR_TYPES = ["char", "wchar", "u8", "u16", "u32", "uchar", "schar"]

SIG_RULE = ("A case is one generated program part: a random signature (0 to 9 parameters of 39 kinds, 12 kinds of results, qualifiers), a random chain of requirements, side effects, result producer and call limits, "
            "up to three competing expectations whose actions must not run, and three call sites with random ways of passing each argument; it is run many times with random values. "
            "Distinct by program part and random choices.")
SIG_ASSUME = ["parameter kinds, ways of passing and producers as listed in gen/sig.py", "the number of moves of results is not restricted, the number of copies is exact"]

CHECKS = {
    "C01": core_check([("general", 6000), ("order", 2500), ("nested", 2500), ("faults", 2500)], scale=[("crowd", 16)]),
    "C02": core_check([("limits", 8000), ("general", 3000), ("nested", 2000)], scale=[("counts", 60), ("crowd", 8), ("deep", 8)]),
    "C03": core_check([("latest", 8000), ("general", 3000)], scale=[("crowd", 24)]),
    "C04": core_check([("order", 8000), ("prefer", 3000), ("lifetime", 2000)], scale=[("long", 10), ("wide", 20)]),
    "C05": core_check([("prefer", 10000), ("order", 2000)], scale=[("wide", 40), ("long", 6)]),
    "C06": c06,
    "C07": gen_check(sig, "sig", 8, 8, 2400, 12, SIG_RULE + " In addition the core histories of C01 with their side effects and producers.", SIG_ASSUME, core_profiles=[("actions", 6000), ("nested", 2000)]),
    "C08": gen_check(sig, "sig", 8, 11, 4800, 14, SIG_RULE, SIG_ASSUME, uar=True),
    "C09": c09,
    "C10": simple("match", MATCH_SRC,
                  [("values", 24, 1), ("objects", 200, 10), ("args", 200, 10), ("ranges", 2400, 20), ("ranges2", 1600, 20), ("nested", 2400, 20), ("tuples", 320, 20)],
                  "A case builds matchers from random (profile values: all listed boundary) values and ranges and asks each several times, plain, negated, copied, through a mock; "
                  "non-trivial if it had accepting and rejecting answers; distinct by the fingerprint of descriptions and answers.",
                  ["value types: bool, integers of all widths, floating point incl. NaN, strings, user types; ranges up to length 8"]),
    "C11": simple("str", STR_SRC,
                  [(t + "-exhaustive", 85, 1) for t in STR_TYPES] + [(t + "-random", 16, 20) for t in STR_TYPES] + [(t + "-binary", 23, 8) for t in STR_TYPES] + [("mock", 200, 10)],
                  "A case asks all string matchers about pairs of pattern and target (exhaustive: all pairs up to length 3 over {a,A,b,zero}; binary: all targets up to length 7 with all patterns up to length 4 over two letters, then longer periodic words; random: derived, repetitive, long, all single bytes), in every string form; "
                  "non-trivial if it had accepting and rejecting answers; distinct by answers and seed.",
                  ["case-insensitive comparison: ASCII folding in the default locale, char only (other types need an ICU-like backend which is not installed)"], extra=["-D__NO_CTYPE"]),
    "C12": simple("print", PRINT_SRC,
                  [("scalars", 2400, 30), ("strings", 2400, 30), ("nested", 2400, 30), ("nested2", 1600, 30), ("odd", 1600, 30)],
                  "A case prints one random value of every listed type (lvalue, const, rvalue, through an iterator, in a call report, and twice) and compares the text with an independent reference printer; "
                  "profiles scalars and strings also compare pairs of values. Distinct by the texts.",
                  ["scalars of the character types other than char are compared with the formatting backend, floating point with std::to_chars", "ranges nested up to depth 3, strings up to 100000 and ranges up to 3000 elements"], thorough_flavours=("clang-asan0",)),
    "C13": core_check([("reports", 6000), ("faults", 1500), ("limits", 1500)], scale=[("counts", 16), ("crowd", 8)], texts=4000),
    "C14": core_check([("faults", 9000), ("actions", 2500)], scale=[("crowd", 8)]),
    "C15": simple("watch", WATCH_SRC, [("calm", 4800, 20), ("violating", 6400, 20), ("traits", 1, 1, 1)],
                  "A case is one random history over up to five watched objects (Lifetime, Relocation, both in either order; plain and virtual bases): construction, copies, moves, assignments, swaps, destruction, "
                  "expectations about destruction and relocation with random limits, partly in lazy and greedy sequences shared with a plain mock, handles moved and dropped; every report is checked against the model. "
                  "Non-trivial: at least one event was answered; distinct by set-ups and answers.",
                  ["move-assignment over an object with a pending destruction expectation is not driven (unspecified)", "wrapped objects with throwing destructors and moves, as required for observing violations"], uar=True),
    "C16": c16,
    "C17": c17,
    "C18": core_check([("lifetime", 9000), ("general", 1500)], uar=True, scale=[("deep", 8)], watch=[("violating", 2400), ("calm", 800)]),
    "C19": core_check([("nested", 10000), ("actions", 2500)], scale=[("deep", 40)]),
    "C20": c20,
    "C22": c22,
}

_M = "Held on the executions explored (see the evidence); trusts the oracle in the harness, the compilers' sanitizer runtimes and the seeds' diversity. "
_MODEL = "runtime monitoring: executable reference model checked online against random histories of the real library, under ASan+UBSan"
# property: (technique, level note) for the manifest
NOTES = {
    "C01": (_MODEL, _M + "Signatures: three, one of them with overloads."),
    "C02": (_MODEL + "; large-count workloads", _M + "Counts up to 70001."),
    "C03": (_MODEL + "; crowds of live expectations", _M),
    "C04": (_MODEL + "; sequences of up to 66000 entries", _M),
    "C05": (_MODEL, _M + "Contradicting preferences of several sequences are not ordered."),
    "C06": ("runtime monitoring: trace equality of twin runs with and without rejected set-ups, under ASan+UBSan", _M),
    "C07": ("runtime monitoring: recorded action order and results of generated programs and random histories, under ASan+UBSan", _M),
    "C08": ("runtime monitoring: identity probes (address, category, copies) in generated programs, under ASan with use-after-return detection", _M),
    "C09": ("runtime monitoring: differential against plain classes in generated programs; generated interfaces, under sanitizers", _M),
    "C10": ("runtime monitoring: differential against independent definitions of the relations, purity probes, under ASan+UBSan", _M),
    "C11": ("runtime monitoring: exhaustive small and random large strings against a naive reference, under ASan+UBSan", _M + "Case folding for char in the default locale only."),
    "C12": ("runtime monitoring: differential against a reference printer, under ASan+UBSan", _M),
    "C13": (_MODEL + "; parsed report texts", _M),
    "C14": (_MODEL + " with injected exceptions", _M),
    "C15": ("runtime monitoring: model of watched objects checked online over random object histories, under ASan+UBSan", _M),
    "C16": ("runtime monitoring: scenarios run inside the real test frameworks with recording listeners, compared with a model of the reports, under ASan+UBSan", _M + "One known finding."),
    "C17": ("ThreadSanitizer and AddressSanitizer over stress runs with injected delays; conservation and liveness-window checks over recorded operations", _M + "Interleavings explored by stress, not enumerated. One known finding."),
    "C18": (_MODEL + "; lifetime tokens and leak detection, use-after-return detection", _M),
    "C19": (_MODEL + " with nested operations", _M),
    "C20": ("runtime monitoring: model of policy events and reference texts for user extensions, under ASan+UBSan", _M),
    "C22": ("runtime monitoring: digests of recorded traces compared between build configurations; memcheck for uninitialised memory", _M + "Only compilers, standards and formatting backends installed here."),
}
