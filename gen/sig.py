"""Generates the programs of C07/C08: random signatures, chains of actions and result producers, and ways of passing arguments,
together with the steps, identities, values and numbers of copies which the trace (harness/sig/support.hpp) has to observe."""
import random
import re

# name: (parameter type, [(set-up, expression, known address or None, value expression, copies, post check: 'ref' | 'keep' | None)])
OBJ = "Obj a{i}{{id{i}}};"
A = "std::addressof(a{i})"
V = "valueOf(a{i})"
KINDS = {
    "Obj": ("Obj", [(OBJ, "a{i}", None, V, 1, "keep"), (OBJ, "std::move(a{i})", None, V, 0, None), ("", "Obj{{id{i}}}", None, "id{i}", 0, None), ("const " + OBJ, "a{i}", None, V, 1, "keep")]),
    "Obj&": ("Obj&", [(OBJ, "a{i}", A, V, 0, "ref")]),
    "const Obj&": ("const Obj&", [(OBJ, "a{i}", A, V, 0, "ref"), ("const " + OBJ, "a{i}", A, V, 0, "ref"), ("", "Obj{{id{i}}}", None, "id{i}", 0, None), (OBJ, "std::move(a{i})", A, V, 0, "ref")]),
    "Obj&&": ("Obj&&", [(OBJ, "std::move(a{i})", A, V, 0, "ref"), ("", "Obj{{id{i}}}", None, "id{i}", 0, None)]),
    "const Obj&&": ("const Obj&&", [(OBJ, "std::move(a{i})", A, V, 0, "ref"), ("const " + OBJ, "std::move(a{i})", A, V, 0, "ref")]),
    "Obj*": ("Obj*", [(OBJ, "std::addressof(a{i})", None, "valueOf(std::addressof(a{i}))", 0, None), ("", "nullptr", None, "0", 0, None)]),
    "const Obj*": ("const Obj*", [(OBJ, "std::addressof(a{i})", None, "valueOf(std::addressof(a{i}))", 0, None)]),
    "Obj*&": ("Obj*&", [(OBJ + " Obj* p{i} = std::addressof(a{i});", "p{i}", "&p{i}", "valueOf(p{i})", 0, None)]),
    "Mov": ("Mov", [("Mov a{i}{{id{i}}};", "std::move(a{i})", None, V, 0, None), ("", "Mov{{id{i}}}", None, "id{i}", 0, None)]),
    "Mov&": ("Mov&", [("Mov a{i}{{id{i}}};", "a{i}", A, V, 0, "ref")]),
    "Mov&&": ("Mov&&", [("Mov a{i}{{id{i}}};", "std::move(a{i})", A, V, 0, "ref"), ("", "Mov{{id{i}}}", None, "id{i}", 0, None)]),
    "const Mov&": ("const Mov&", [("Mov a{i}{{id{i}}};", "a{i}", A, V, 0, "ref"), ("", "Mov{{id{i}}}", None, "id{i}", 0, None)]),
    "uptr": ("std::unique_ptr<long>", [("auto a{i} = std::make_unique<long>(id{i});", "std::move(a{i})", None, V, 0, None)]),
    "uptr&&": ("std::unique_ptr<long>&&", [("auto a{i} = std::make_unique<long>(id{i});", "std::move(a{i})", A, V, 0, "ref")]),
    "sptr": ("const std::shared_ptr<long>&", [("auto a{i} = std::make_shared<long>(id{i});", "a{i}", A, V, 0, "ref")]),
    "Base&": ("Base&", [("Derived a{i}{{id{i}}};", "a{i}", "static_cast<Base*>(std::addressof(a{i}))", V, 0, "ref")]),
    "const Base&": ("const Base&", [("Derived a{i}{{id{i}}};", "a{i}", "static_cast<Base*>(std::addressof(a{i}))", V, 0, "ref"), ("", "Derived{{id{i}}}", None, "id{i} * 2 + 1", 0, None)]),
    "Base&&": ("Base&&", [("Derived a{i}{{id{i}}};", "std::move(a{i})", "static_cast<Base*>(std::addressof(a{i}))", V, 0, "ref")]),
    "int": ("int", [("int a{i} = int(id{i});", "a{i}", None, V, 0, "keep"), ("", "int(id{i})", None, "id{i}", 0, None)]),
    "int&": ("int&", [("int a{i} = int(id{i});", "a{i}", A, V, 0, "ref")]),
    "const int&": ("const int&", [("int a{i} = int(id{i});", "a{i}", A, V, 0, "ref"), ("", "int(id{i})", None, "id{i}", 0, None)]),
    "double": ("double", [("", "double(id{i})", None, "id{i} * 16", 0, None)]),
    "En": ("En", [("", "En(id{i})", None, "id{i}", 0, None)]),
    "string": ("std::string", [("std::string a{i} = std::to_string(id{i}) + std::string(40, 's');", "a{i}", None, V, 0, "keep"), ("std::string a{i} = std::to_string(id{i});", "std::move(a{i})", None, V, 0, None)]),
    "const string&": ("const std::string&", [("std::string a{i} = std::to_string(id{i}) + std::string(40, 's');", "a{i}", A, V, 0, "ref")]),
    "string_view": ("std::string_view", [("std::string a{i} = std::to_string(id{i}) + std::string(40, 's');", "a{i}", None, V, 0, "keep")]),
    "const char*": ("const char*", [("std::string a{i} = std::to_string(id{i});", "a{i}.c_str()", None, "valueOf(a{i}.c_str())", 0, None), ("", "nullptr", None, "0", 0, None)]),
    "nullptr": ("std::nullptr_t", [("", "nullptr", None, "0", 0, None)]),
    "vec&&": ("std::vector<int>&&", [("std::vector<int> a{i}(3, int(id{i}));", "std::move(a{i})", A, V, 0, "ref"), ("std::vector<int> b{i}(3, int(id{i}));", "std::vector<int>(b{i})", None, "valueOf(b{i})", 0, None)]),
    "vec&": ("std::vector<int>&", [("std::vector<int> a{i}(3, int(id{i}));", "a{i}", A, V, 0, "ref")]),
    "vecbool": ("std::vector<bool>", [("std::vector<bool> a{i}(5, id{i} % 2);", "a{i}", None, V, 0, "keep")]),
    "vecmov": ("std::vector<Mov>", [("std::vector<Mov> a{i}; a{i}.emplace_back(id{i});", "std::move(a{i})", None, V, 0, None)]),
    "span": ("std::span<int>", [("int b{i}[4]{{}};", "std::span<int>(b{i})", None, "valueOf(std::span<int>(b{i}))", 0, None)]),
    "arr": ("int(&)[3]", [("int a{i}[3]{{int(id{i}), 2, 3}};", "a{i}", "&a{i}", V, 0, "ref")]),
    "carr": ("const int(&)[3]", [("int a{i}[3]{{int(id{i}), 2, 3}};", "a{i}", "&a{i}", V, 0, "ref")]),
    "fptr": ("int(*)(int)", [("", "(id{i} % 2 ? &plainFn : &otherFn)", None, "valueOf(id{i} % 2 ? &plainFn : &otherFn)", 0, None)]),
    "fref": ("int(&)(int)", [("", "plainFn", "reinterpret_cast<const void*>(&plainFn)", "valueOf(&plainFn)", 0, None)]),
    "pair": ("std::pair<int, std::string>", [("std::pair<int, std::string> a{i}(int(id{i}), \"x\");", "a{i}", None, V, 0, "keep")]),
    "any": ("const std::any&", [("std::any a{i}{{id{i}}};", "a{i}", A, V, 0, "ref")]),
    "refw": ("std::reference_wrapper<Obj>", [(OBJ, "std::ref(a{i})", None, "valueOf(std::ref(a{i}))", 0, None)]),
}
COMMON = ["Obj", "Obj&", "const Obj&", "Obj&&", "const Obj&&", "Mov", "Mov&&", "int", "int&"]

RETURNS = ["void", "int", "Obj", "Mov", "uptr", "Obj&", "const Obj&", "Obj&&", "Obj*", "Base&", "string", "const Mov&"]
ARGS = {"int": ("int", "int&", "const int&"), "Obj": ("Obj", "Obj&", "const Obj&", "Obj&&", "const Obj&&"), "Mov": ("Mov", "Mov&&"), "uptr": ("uptr", "uptr&&"), "Obj&": ("Obj&",),
        "const Obj&": ("Obj&", "const Obj&"), "Obj&&": ("Obj&&",), "Obj*": ("Obj*", "Obj*&"), "Base&": ("Base&",), "string": ("string", "const string&"), "const Mov&": ("Mov&", "const Mov&"), "pair": ("pair",)}
BY_RET = {"void": ["none", "throws"], "int": ["value", "state"], "Obj": ["value", "ref", "result"], "Mov": ["result"], "uptr": ["result"], "Obj&": ["value", "ref", "lref"], "const Obj&": ["value", "ref", "lref"],
          "Obj&&": ["ref", "xref"], "Obj*": ["value"], "Base&": ["ref", "lref"], "string": ["value", "result"], "const Mov&": ["lref"], "pair": ["value"]}
# every combination of result and producer comes up once per deck, and so do the parameter kinds and the actions
DECK = [(R, "arg", k) for R in ARGS for k in ARGS[R]] + [(R, k, None) for R in BY_RET for k in BY_RET[R]] + [(R, k, None) for R in ARGS for k in ("apply", "all")] + [(R, "throws", None) for R in ("int", "Obj&", "Mov")]
ACTIONS = ["invoke", "arg", "args", "all", "mutate", "take"]
RTYPE = {"void": "void", "int": "int", "Obj": "Obj", "Mov": "Mov", "uptr": "std::unique_ptr<long>", "Obj&": "Obj&", "const Obj&": "const Obj&", "Obj&&": "Obj&&", "Obj*": "Obj*",
         "Base&": "Base&", "string": "std::string", "const Mov&": "const Mov&", "pair": "std::pair<int, std::string>"}


class Deck:
    """Deals the elements in random order, again and again."""

    def __init__(self, rng, items):
        self.r, self.items, self.left = rng, list(items), []

    def deal(self):
        if not self.left:
            self.left = self.items[:]
            self.r.shuffle(self.left)
        return self.left.pop()


class Case:
    def __init__(self, rng, name, decks, iface=False, big=False):
        self.r, self.name, self.iface, self.big = rng, name, iface, big
        self.adeck = decks[1]
        r = rng
        self.ret, self.fk, kind = decks[0].deal()
        n = r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4]) if r.random() < .95 else r.randint(5, 9)
        if big:
            n = r.randint(7, 16)
        if self.fk in ("arg", "apply"):
            n = max(n, 1)
        self.kinds = [r.choice(COMMON) if r.random() < .35 else decks[2].deal() for _ in range(n)]
        if kind and kind not in self.kinds:
            self.kinds[r.randrange(n)] = kind
        self.argkind = kind
        self.steps = []  # (tag, final)
        self.tag = 100
        self.gone = set()
        self.known = None

    def newtag(self):
        self.tag += 1
        self.steps.append(self.tag)
        return self.tag

    def types(self, idx):
        return "std::is_same_v<L<decltype(a)...>, L<%s>>" % ", ".join("std::add_lvalue_reference_t<P%d>" % i for i in idx)

    def act(self, tag, idx):
        return "tr.act(%d, std::integer_sequence<int%s>{}, %s, a...);" % (tag, "".join(", %d" % i for i in idx), self.types(idx))

    def stateful(self, tag, fn):
        """The callable as it is, or with a state of its own."""
        if self.r.random() < .6:
            return fn
        return "%s{tr, %d, %s}" % (self.r.choice(["CountedC", "CountedU"] + (["CountedM"] if "auto" not in fn else [])), tag, fn)

    def action(self):
        r, n = self.r, len(self.kinds)
        k = self.adeck.deal()
        if not n and k not in ("invoke", "all") or self.big:
            k = "all"
        t = self.newtag()
        if k == "invoke":
            if r.random() < .5:
                return "then::invoke(%s)" % self.stateful(t, "[&tr] { tr.step(%d); }" % t)
            return "then::invoke([&tr, n = 0L]() mutable { tr.state(%d, ++n); tr.step(%d); })" % (t, t)
        if k == "all":
            return "then::apply_all(%s)" % self.stateful(t, "[&tr](auto&... a) { %s }" % self.act(t, range(n)))
        if k == "arg":
            i = r.randrange(n)
            return "then::apply_arg<%d>(%s)" % (i, self.stateful(t, "[&tr](auto&... a) { %s }" % self.act(t, [i])))
        if k == "args":
            idx = [r.randrange(n) for _ in range(r.randint(1, min(4, n + 1)))]
            return "then::apply_args<%s>(%s)" % (", ".join(map(str, idx)), self.stateful(t, "[&tr](auto&... a) { %s }" % self.act(t, idx)))
        i = r.randrange(n)
        f = "bump" if k == "mutate" else "take"
        return "then::apply_arg<%d>([&tr](auto&... a) { %s (sup::%s(a), ...); ((tr.val[%d] = valueOf(a)), ...); })" % (i, self.act(t, [i]), f, i)

    def having(self, *ks):
        return [i for i, k in enumerate(self.kinds) if k in ks]

    def finalizer(self):
        """-> (policy or None, check code using res, copies, set-up)"""
        r, R, n = self.r, self.ret, len(self.kinds)
        k = self.fk
        E = {"Obj": "Obj", "Obj&": "Obj", "const Obj&": "Obj", "Obj&&": "Obj", "Obj*": "Obj", "Base&": "Derived", "Mov": "Mov", "const Mov&": "Mov"}.get(R)
        setup = "%s ext{%d};" % (E, r.randint(2000, 3000)) if E else ""
        if k == "none":
            return None, "", 0, ""
        if k == "throws":
            v = r.randint(1, 999)
            return "finally::throws(Exc{%d})" % v, "THROWS%d" % v, 0, ""
        if k == "value":
            v = r.randint(1, 999)
            if R == "int":
                return "finally::returns(%d)" % v, "tr.result(res, %d);" % v, 0, ""
            if R == "Obj*":
                return "finally::returns(std::addressof(ext))", "tr.same(res, std::addressof(ext), \"stored pointer\");", 0, setup
            if R == "string":
                return "finally::returns(std::string(50, 'r'))", "tr.result(valueOf(res), valueOf(std::string(50, 'r')));", 0, ""
            if R == "pair":
                return "finally::returns(R(%d, \"p\"))" % v, "tr.result(res.first, %d); tr.result(valueOf(res.second), valueOf(std::string(\"p\")));" % v, 0, ""
            if R == "Obj":
                return "finally::returns(Obj{%d})" % v, "tr.result(res.id, %d);" % v, 1, ""
            # a reference to the stored value: same object each time, and modifications persist
            mod = "" if R == "const Obj&" else " res.id += 3; stored += 3; *res.heap = stored;"
            return "finally::returns(Obj{%d})" % v, "if (stable == nullptr) stable = std::addressof(res); tr.same(std::addressof(res), stable, \"stored value\"); tr.result(valueOf(res), stored);%s" % mod, 0, "const void* stable = nullptr; long stored = %d;" % v
        if k == "ref":
            if R == "Obj":
                return "finally::returns(std::ref(ext))", "tr.result(res.id, ext.id);", 1, setup
            return "finally::returns(std::ref(ext))", "tr.same(std::addressof(res), static_cast<%s*>(std::addressof(ext)), \"referenced object\");" % {"Base&": "Base"}.get(R, "Obj"), 0, setup
        if k == "state":
            t = self.newtag()
            if r.random() < .4:
                return "finally::returns_result_of(%s)" % self.stateful(t, "[&tr] { tr.step(%d); return int(tr.answered) + 1; }" % t), "tr.result(res, tr.answered);", 0, ""
            return "finally::returns_result_of([&tr, n = 0]() mutable { tr.step(%d); return ++n; })" % t, "tr.result(res, tr.answered);", 0, ""
        if k == "result":
            t = self.newtag()
            make = {"Obj": "Obj{900 + n}", "Mov": "Mov{900 + n}", "uptr": "std::make_unique<long>(900 + n)", "string": "std::to_string(900 + n)"}[R]
            get = {"Obj": "res.id", "Mov": "res.id", "uptr": "*res", "string": "std::stol(res)"}[R]
            return "finally::returns_result_of([&tr, n = 0]() mutable { tr.step(%d); ++n; return %s; })" % (t, make), "tr.result(%s, 900 + tr.answered);" % get, 0, ""
        if k in ("lref", "xref"):
            t = self.newtag()
            ty = {"Obj&": "Obj&", "const Obj&": "const Obj&", "Obj&&": "Obj&&", "Base&": "Derived&", "const Mov&": "const Mov&"}[R]
            return "finally::returns_result_of([&]() -> %s { tr.step(%d); return %s; })" % (ty, t, "std::move(ext)" if k == "xref" else "ext"), "tr.same(std::addressof(res), std::addressof(ext), \"referenced object\");", 0, setup
        if k == "arg":
            kk = self.argkind
            i = r.choice(self.having(kk))
            pol = "finally::returns_arg<%d>()" % i
            if R in ("Obj&", "const Obj&", "Obj&&", "Base&", "const Mov&"):
                self.known = i  # pass only objects which outlive the call
                return pol, "tr.same(std::addressof(res), tr.addr[%d], \"argument %d\");" % (i, i), 0, ""
            c = 1 if R == "Obj" and kk in ("Obj&", "const Obj&", "const Obj&&") else 0
            if kk in ("Obj&&", "Mov&&", "uptr&&"):
                self.gone.add(i)
            return pol, "tr.result(valueOf(res), tr.val[%d]);" % i, c, ""
        # apply / all
        idx = [r.randrange(n) for _ in range(r.randint(1, min(4, n + 1)))] if k == "apply" else list(range(n))
        t = self.newtag()
        head = "finally::returns_apply_result_of<%s>" % ", ".join(map(str, idx)) if k == "apply" else "finally::returns_apply_all_result_of"
        ex, chk, c = {"int": ("7", "tr.result(res, 7);", 0), "Obj": ("Obj{55}", "tr.result(res.id, 55);", 0), "Mov": ("Mov{55}", "tr.result(res.id, 55);", 0), "uptr": ("std::make_unique<long>(55)", "tr.result(*res, 55);", 0),
                      "string": ("std::string(60, 'q')", "tr.result(valueOf(res), valueOf(std::string(60, 'q')));", 0), "Obj*": ("std::addressof(ext)", "tr.same(res, std::addressof(ext), \"pointer\");", 0), "pair": ("R(5, \"a\")", "tr.result(res.first, 5);", 0)}.get(R, (None, None, 0))
        ty = {"Obj&": "Obj&", "const Obj&": "const Obj&", "Obj&&": "Obj&&", "Base&": "Base&", "const Mov&": "const Mov&"}.get(R, RTYPE[R])
        if ex is None:
            ex, chk = ("std::move(ext)" if R == "Obj&&" else "ext"), "tr.same(std::addressof(res), static_cast<%s*>(std::addressof(ext)), \"referenced object\");" % {"Base&": "Base", "const Mov&": "Mov const", "const Obj&": "Obj const"}.get(R, "Obj")
        return "%s(%s)" % (head, self.stateful(t, "[&](auto&... a) -> %s { %s return %s; }" % (ty, self.act(t, idx), ex))), chk, 0, setup

    def matchers(self, reject=None):
        out = []
        for i in range(len(self.kinds)):
            x = self.r.random() if not self.big else 0
            out.append("reject<%d>(tr)" % i if i == reject else "mm::matches::_" if x < .4 else "look<%d>(tr)" % i)
        return ", ".join(out)

    def decoy(self, kind):
        r, n = self.r, len(self.kinds)
        d = 'tr.decoy("%s");' % kind
        pols = ["then::invoke([&tr] { %s })" % d]
        if r.random() < .4:
            pols.append("then::apply_all([&tr](auto&...) { %s })" % d)
        if n and r.random() < .5:
            i = r.randrange(n)
            pols.append("expect::arg<%d>(look<%d>(tr))" % (i, i))
        if self.ret != "void":
            pols.append("finally::returns_result_of([&tr]() -> R { %s })" % d)
        obj, m, times = "mock", self.matchers(), "expect::at_most(5)"
        if kind == "used up":
            times = "expect::times(0)"
        if kind == "of another mock":
            obj = "other"
        if kind == "of another overload":
            obj = "sib"
        if kind == "rejecting":
            i = r.randrange(n)
            if r.random() < .5:
                m = self.matchers(i)
            else:
                pols.append("expect::arg<%d>(reject<%d>(tr))" % (i, i))
        pols.append(times)
        r.shuffle(pols)
        return "{ %s.expect_call(%s) && %s };" % (obj, m, " && ".join(pols))

    def emit(self):
        r, n = self.r, len(self.kinds)
        self.quals = r.choice(["", "", "const", "noexcept", "const noexcept"] if self.fk != "throws" else ["", "const"])
        if self.iface:
            self.quals = r.choice(["", "const", "&", "const &"]) + ("" if self.fk == "throws" else r.choice(["", "", " noexcept"]))
        # the policies, in the order of attachment
        na = r.choice([0, 1, 1, 2, 2, 2, 3, 4]) if not self.iface else 1
        pols = []
        fpos = r.randint(0, na)
        acts = [self.action() for _ in range(na)]
        fin, check, fcopies, setup = self.finalizer()
        for j in range(na + 1):
            if j == fpos and fin:
                pols.append(fin)
            if n and r.random() < (.2 if not self.big else 0):
                i = r.randrange(n)
                pols.append("expect::arg<%d>(look<%d>(tr))" % (i, i))
            if j < na:
                pols.append(acts[j])
        pols.insert(r.randint(0, len(pols)), "expect::at_least(1)")
        o = ["static void %s(Rng& r)" % self.name, "{", "\tusing namespace sup; namespace expect = mm::expect; namespace then = mm::then; namespace finally = mm::finally;"]
        for i, k in enumerate(self.kinds):
            o.append("\tusing P%d = %s;" % (i, KINDS[k][0]))
        o.append("\tusing R = %s;" % RTYPE[self.ret])
        sig = "R(%s) %s" % (", ".join("P%d" % i for i in range(n)), self.quals)
        const, sibling = "const" in self.quals, None
        if self.iface and not self.big and r.random() < .5:
            sibling = (self.quals.replace("const", "") if const else "const " + self.quals).strip()
        desc = "%s%s(%s) %s" % ("virtual " if self.iface else "", RTYPE[self.ret], ", ".join(KINDS[k][0] for k in self.kinds), self.quals)
        self.desc = desc
        o.append("\tTrace tr{%d, \"%s: %s\"};" % (n, self.name, desc))
        o.append("\ttr.steps = {%s};" % ", ".join("{%d, false}" % t for t in self.steps))
        if setup:
            o.append("\t" + setup)
        if self.iface:
            raw = [KINDS[k][0] if "(" not in KINDS[k][0] and r.random() < .5 else "P%d" % i for i, k in enumerate(self.kinds)]
            raw = ["(%s)" % t if "," in t else t for t in raw]
            rr = r.choice(["R", RTYPE[self.ret]])
            rr = "(%s)" % rr if "," in rr else rr
            overloads = ["%s, (%s)%s" % (rr, ", ".join(raw), ", " + q if q else "") for q in [self.quals] + ([sibling] if sibling is not None else [])]
            if sibling is not None and r.random() < .5:
                overloads.reverse()
            px = r.choice(["", "MIMICPP_"])
            macro = px + "MOCK_METHOD(fn, %s)" % overloads[0] if len(overloads) == 1 and r.random() < .7 else px + "MOCK_OVERLOADED_METHOD(fn, %s)" % ", ".join(px + "ADD_OVERLOAD(%s)" % v for v in overloads)
            virt = " ".join("virtual R fn(%s) %s = 0;" % (", ".join("P%d" % i for i in range(n)), q) for q in [self.quals] + ([sibling] if sibling is not None else []))
            o.append("\tstruct I { virtual ~I() = default; %s };\n\tstruct D final : I { %s; };" % (virt, macro))
            o.append("\tD d{}, dother{}; %sI& obj = d;" % ("const " if const and (sibling is not None or r.random() < .5) else ""))
            view = "%s(%s.fn_)" if not const or sibling is None and r.random() < .5 else "std::as_const%s(%s.fn_)"
            o.append("\tauto& mock = %s; auto& other = %s;" % (view % ("", "d"), view % ("", "dother")))
            if sibling is not None:
                o.append("\tauto& sib = %s(d.fn_);" % ("" if const else "std::as_const"))
        else:
            o.append("\tmm::Mock<%s> mock{}, other{};" % sig)
        if not self.big and r.random() < .25:
            o.append("\tmm::ScopedExpectation older" + self.decoy("older"))
        # by the macro: the expectation cannot be named, but must live as long as one that can
        macro = r.random() < .35 and r.choice(["SCOPED_EXP", "MIMICPP_SCOPED_EXPECTATION"])
        o.append("\t%s mock.expect_call(%s)\n\t\t&& %s%s;" % (macro or "mm::ScopedExpectation subject{", self.matchers(), "\n\t\t&& ".join(pols), "" if macro else " }"))
        if sibling is not None:
            d = self.decoy("of another overload")
            o.append("\t" + (re.sub(r"^\s*\{(.*)\};\s*$", r"MIMICPP_SCOPED_EXPECTATION \1;", d, flags=re.S) if macro else "mm::ScopedExpectation sibling" + d))
        kinds = ["used up", "of another mock"] + (["rejecting"] if n else [])
        for j in range(r.random() < .4 if not self.iface else 0):
            o.append("\tmm::ScopedExpectation decoy%d" % j + self.decoy(r.choice(kinds)))
        o.append("\tint done = 0;")
        o.append("\tfor (int k = r.between(1, 5); k > 0 || !done; --k) switch (r.below(%d))\n\t{" % (2 if self.iface else 3))
        for form in range(3 if not self.iface else 2):
            o.append("\tcase %d:\n\t{" % form)
            call, addr, val, posts, copies = [], [], [], [], 0
            for i, k in enumerate(self.kinds):
                su, ex, ad, va, c, post = r.choice([f for f in KINDS[k][1] if f[2] or self.known != i])
                f = lambda s: s.format(i=i)
                o.append("\t\t[[maybe_unused]] const long id%d = r.between(1, 900); %s" % (i, f(su)))
                call.append(f(ex)); addr.append(f(ad) if ad else "nullptr"); val.append(f(va)); copies += c
                if post == "ref" and i not in self.gone:
                    posts.append("tr.post(%d, valueOf(a%d));" % (i, i))
                if post == "keep":
                    o.append("\t\tconst long keep%d = valueOf(a%d);" % (i, i))
                    posts.append("if (valueOf(a%d) != keep%d) tr.bad(\"C08\", \"an lvalue passed by value was modified\");" % (i, i))
            o.append("\t\ttr.begin({%s}, {%s});" % (", ".join(addr), ", ".join(val)))
            c = "%s(%s)" % ("obj.fn" if self.iface else "mock", ", ".join(call))
            if check.startswith("THROWS"):
                o.append("\t\ttry { (void)%s; tr.bad(\"C07\", \"the call returns instead of throwing\"); } catch (const Exc& x) { if (typeid(x) != typeid(Exc)) tr.bad(\"C07\", \"an exception of another type\"); tr.end(%d); tr.result(x.n, %s); tr.result(*x.heap, %s); }" % (c, copies, check[6:], check[6:]))
            elif self.ret == "void":
                o.append("\t\t%s; tr.end(%d);" % (c, copies))
            else:
                o.append("\t\tdecltype(auto) res = %s; static_assert(std::is_same_v<decltype(res), R>); tr.end(%d); %s" % (c, copies + fcopies, check))
            o.append("\t\t" + " ".join(posts) + "\n\t\t++done; break;\n\t}")
        o.append("\t}")
        if not macro:
            o.append("\tif (!subject.is_satisfied()) tr.bad(\"C07,C02\", \"the expectation is not satisfied after being called\");")
        o.append("}\nstatic sup::Reg reg_%s{&%s, \"%s: %s\"};\n" % (self.name, self.name, self.name, desc))
        return "\n".join(o)


def units(seed, count, per):
    """-> {file name: source}"""
    out = {}
    rng = random.Random("sig %d" % seed)
    decks = Deck(rng, DECK), Deck(rng, ACTIONS), Deck(rng, KINDS)
    for u in range(count):
        body = "".join(Case(rng, "c%d_%d_%d" % (seed, u, k), decks).emit() for k in range(per))
        out["sig_%d_%d.cpp" % (seed, u)] = '#include "sig/support.hpp"\n' + body
    return out


def iface_units(seed, count, per):
    """The same with the mock behind a method of an interface, made by the macros (C09)."""
    rng = random.Random("iface %d" % seed)
    decks = Deck(rng, DECK), Deck(rng, ACTIONS), Deck(rng, KINDS)
    return {"ifc_%d_%d.cpp" % (seed, u): '#include "sig/support.hpp"\n' + "".join(Case(rng, "f%d_%d_%d" % (seed, u, k), decks, True, k == 0).emit() for k in range(per)) for u in range(count)}
