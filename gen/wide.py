"""Generates mocks and interfaces with many parameters and many overloads (C08, C09)."""
import random

TYPES = ["int", "int&", "int&&", "double", "const std::string&", "std::string", "std::unique_ptr<int>", "const Base&", "const int*"]


def units(seed, arities=(9, 15), unanswered=(24, 40, 64), overloads=36):
    r = random.Random("wide %d" % seed)
    out = {}
    for n in arities + unanswered:
        p = [r.choice(TYPES) if r.random() < .6 else "int" for _ in range(n)]
        ps = ", ".join(p)
        ci, cm = r.choice(["", "const"]), "C%d" % n
        spec = ", " + ci if ci else ""
        o = ['#include "wide/support.hpp"', "namespace wide\n{"]
        o.append("\tstruct I%d { virtual ~I%d() = default; virtual long f(%s) %s = 0; };" % (n, n, ps, ci))
        o.append("\tstruct %s : I%d { MIMICPP_MOCK_METHOD(f, long, (%s)%s); };" % (cm, n, ps, ", " + ci if ci else ""))
        if n in unanswered:  # the symbols of an expectation of that many parameters take gigabytes
            o.append("\tstatic void iface(Rng& r) { %s d{}; %sI%d& i = d; unanswered<%s>(r, \"an interface\", [&](auto&&... a) { return i.f(std::forward<decltype(a)>(a)...); }); }" % (cm, "const " if ci else "", n, ps))
            o.append("\tstatic Reg r2{\"interface of %d parameters\", &iface};\n}" % n)
            out["wide_%d_%d.cpp" % (seed, n)] = "\n".join(o) + "\n"
            continue
        o.append("\tstatic void direct(Rng& r) { mm::Mock<long(%s)> m{}; run<%s>(r, \"a mock\", m, [&](auto&&... a) { return m(std::forward<decltype(a)>(a)...); }); }" % (ps, ps))
        o.append("\tstatic void iface(Rng& r) { %s d{}; %sI%d& i = d; run<%s>(r, \"an interface\", d.f_, [&](auto&&... a) { return i.f(std::forward<decltype(a)>(a)...); }); }" % (cm, "const " if ci else "", n, ps))
        o.append("\tstatic Reg r1{\"mock of %d parameters\", &direct}, r2{\"interface of %d parameters\", &iface};\n}" % (n, n))
        out["wide_%d_%d.cpp" % (seed, n)] = "\n".join(o) + "\n"
    # overloads told apart by the number of parameters and by Tag<k> parameters
    sigs = [["Tag<%d>" % k] + ["int"] * r.randint(0, 3) for k in range(overloads)]
    o = ['#include "wide/support.hpp"', "namespace wide\n{", "\ttemplate <int> struct Tag { bool operator==(const Tag&) const = default; };", "\tstruct IO { virtual ~IO() = default; %s };" % " ".join("virtual int f(%s) = 0;" % ", ".join(s) for s in sigs)]
    o.append("\tstruct DO : IO { MIMICPP_MOCK_OVERLOADED_METHOD(f, %s); };" % ", ".join("MIMICPP_ADD_OVERLOAD(int, (%s))" % ", ".join(s) for s in sigs))
    o.append("\tstatic void overloads(Rng& r)\n\t{\n\t\tDO d{}; IO& i = d; (void)r;")
    for k, s in enumerate(sigs):
        o.append("\t\t{ const int v = r.below(1000); mm::ScopedExpectation e = d.f_.expect_call(%s) && mm::finally::returns(%d + v); if (const int got = i.f(%s); got != %d + v) fail(\"C09\", \"overload %d of %d returns \" + std::to_string(got)); }" % (
            ", ".join(["Tag<%d>{}" % k] + ["v + %d" % j for j in range(len(s) - 1)]), k * 1000, ", ".join(["Tag<%d>{}" % k] + ["v + %d" % j for j in range(len(s) - 1)]), k * 1000, k, len(sigs)))
    o.append("\t\tstat(\"most_overloads\") = %d;\n\t}\n\tstatic Reg r3{\"%d overloads\", &overloads};\n}" % (overloads, overloads))
    out["wide_%d_o.cpp" % seed] = "\n".join(o) + "\n"
    return out
