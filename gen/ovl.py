"""Generates the overload sets of C09: a mock and a plain class with the same call operators, the calls and the ways of setting up expectations to compare."""
import random

TYPES = ["int", "double", "int&", "const int&", "int&&", "const std::string&", "std::string&", "std::string&&", "std::string", "Base&", "const Base&", "Derived&", "int*", "const int*", "const char*",
         "bool", "std::unique_ptr<int>", "En", "FromInt", "std::nullptr_t"]
# what callers pass: types as for std::declval
PASS = ["int", "int&", "const int&", "double", "bool", "std::string", "std::string&", "const std::string&", "Base&", "const Base&", "Derived&", "Derived", "int*", "const int*", "const char*", "std::unique_ptr<int>", "En", "std::nullptr_t", "short", "FromInt"]
RELATED = {"int": ["int", "int&", "const int&", "double", "short", "bool"], "double": ["int", "double"], "int&": ["int&", "const int&", "int"], "const int&": ["int&", "const int&", "int", "double"], "int&&": ["int", "int&"],
           "const std::string&": ["std::string", "std::string&", "const std::string&", "const char*"], "std::string&": ["std::string&", "const std::string&"], "std::string&&": ["std::string", "std::string&", "const char*"],
           "std::string": ["std::string", "const std::string&", "const char*"], "Base&": ["Base&", "Derived&", "const Base&"], "const Base&": ["Base&", "Derived&", "const Base&", "Derived"], "Derived&": ["Base&", "Derived&"],
           "int*": ["int*", "const int*", "std::nullptr_t"], "const int*": ["int*", "const int*"], "const char*": ["const char*", "std::nullptr_t"], "bool": ["bool", "int", "int*"], "std::unique_ptr<int>": ["std::unique_ptr<int>", "std::nullptr_t"],
           "En": ["En", "int"], "FromInt": ["FromInt", "int", "short"], "std::nullptr_t": ["std::nullptr_t", "int*"]}


def part(r, name, full):
    quals = []  # (params, cv, ref, noexcept)
    lists, seen = [], set()
    arity = r.choice([0, 1, 1, 2])
    for _ in range(1 if full else r.choice([1, 2, 2, 3])):
        p = tuple(r.choice(TYPES) for _ in range(arity if r.random() < .7 else r.choice([0, 1, 2, 3])))
        if p not in seen:
            seen.add(p)
            lists.append(p)
    for p in lists:
        if full or r.random() < .6:
            opts = [("", "&"), ("const", "&"), ("", "&&"), ("const", "&&")]
        else:
            opts = [("", ""), ("const", "")]
        k = len(opts) if full else r.randint(1, len(opts))
        for cv, ref in r.sample(opts, k):
            quals.append((p, cv, ref, r.random() < .25))
    r.shuffle(quals)
    shared = {p: r.random() < .5 for p in lists}
    plain, sigs, infos = [], [], []
    for k, (p, cv, ref, ne) in enumerate(quals):
        tag = "Tag<%d>" % (90 + lists.index(p) if shared[p] else k)
        q = " ".join(x for x in (cv, ref, "noexcept" if ne else "") if x)
        qq = " ".join(x for x in (cv, ref) if x)
        plain.append("\t\t%s operator()(%s) %s { return {%d}; }" % (tag, ", ".join(p), q, k))
        xs = ", ".join("X<std::add_lvalue_reference_t<%s>>" % t for t in p)
        plain.append("\t\ttemplate <typename... A> requires std::same_as<L<A...>, L<%s>> %s expect(A...) %s { return {%d}; }" % (xs, tag, qq, k))
        sigs.append("%s(%s) %s" % (tag, ", ".join(p), q))
        infos.append("{mm::ValueCategory::%s, mm::Constness::%s, %s, %d}" % ({"": "any", "&": "lvalue", "&&": "rvalue"}[ref], "as_const" if cv else "non_const", "true" if ne else "false", len(p)))
    calls = set()
    for p in lists:
        for _ in range(4):
            calls.add(tuple(r.choice(RELATED[t]) for t in p))
        if p and r.random() < .5:
            calls.add(tuple(r.choice(PASS) for _ in p))
    if any("string" in t for p in lists for t in p):  # std::string from nullptr compiles but must not be evaluated
        calls = {c for c in calls if "std::nullptr_t" not in c}
    calls = sorted(calls)
    o = ["namespace %s\n{\n\tusing namespace ovl;\n\tstruct Plain\n\t{" % name] + plain + ["\t};", "\tusing M = mm::Mock<%s>;" % ", ".join(sigs)]
    o.append("\tinline void run(Rng& r)\n\t{\n\t\tSet<Plain, M> s{\"%s: %s\"};\n\t\ts.overloads = {%s};" % (name, "; ".join(sigs), ", ".join(infos)))
    for c in calls:
        o.append("\t\ts.call<%s>(\"%s\");" % (", ".join(c), ", ".join(c)))
    for p in lists:
        o.append("\t\ts.expect<%s>(\"%s\");" % (", ".join(p), ", ".join(p)))
    o.append("\t\ts.run(r);\n\t\tproto::distinct(s.fp ^ proto::fnv(s.what));\n\t}\n\tinline ovl::Reg reg{&run, \"%s: %s\"};\n}\n" % (name, "; ".join(sigs)))
    return "\n".join(o)


def units(seed, count, per):
    rng = random.Random("ovl %d" % seed)
    return {"ovl_%d_%d.cpp" % (seed, u): '#include "ovl/support.hpp"\n' + "".join(part(rng, "o%d_%d_%d" % (seed, u, k), k == 0) for k in range(per)) for u in range(count)}
