"""Shared machinery of the checks: building harnesses against /repo's working tree, running them in shards, and verdicts."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MIMICPP_REPO", "/repo")
INC = os.path.join(REPO, "include")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
JOBS = 8

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-std=c++20", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + INC]
FLAVOURS = {
    "gcc-asan": ["g++", "-O1"] + SAN,
    "clang-asan": ["clang++", "-O1", "-fno-sanitize=function"] + SAN,
    "clang-tsan": ["clang++", "-O1", "-fsanitize=thread"],
    "gcc-tsan": ["g++", "-O1", "-fsanitize=thread"],
    "gcc-O0": ["g++", "-O0"],
    "gcc-asan0": ["g++", "-O0"] + SAN,
    "clang-asan0": ["clang++", "-O0", "-fno-sanitize=function"] + SAN,
    "clang-addr": ["clang++", "-O0", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "gcc-O2": ["g++", "-O2"],
    "gcc-O3": ["g++", "-O3"],
    "clang-O0": ["clang++", "-O0"],
    "clang-O2": ["clang++", "-O2"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=1:detect_stack_use_after_return=0:check_initialization_order=1:strict_string_checks=1:allocator_may_return_null=0:max_allocation_size_mb=2000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=66",
}


class HarnessError(Exception):
    pass


class CompileError(HarnessError):
    pass


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for root, dirs, files in sorted(os.walk(INC)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
        _tree_hash = h.hexdigest()
    return _tree_hash


def _compile_one(args):
    cmd, out, timeout = args
    if os.path.exists(out):
        return None
    tmp = out + ".tmp%d" % os.getpid() + str(abs(hash(out)) % 1000)
    try:
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "compiler timed out: " + " ".join(cmd)
    if r.returncode != 0:
        return " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:]
    os.replace(tmp, out)
    return None


class Program:
    """One harness binary: sources (relative to harness/) compiled in one flavour."""

    def __init__(self, name, sources, flavour="gcc-asan", extra=(), libs=(), std=None, deps=()):
        self.name, self.sources, self.flavour, self.extra, self.libs, self.std = name, list(sources), flavour, list(extra), list(libs), std
        self.deps = list(deps)
        self.bin = None

    def flags(self):
        f = FLAVOURS[self.flavour]
        base = [x if not x.startswith("-std=") or not self.std else "-std=" + self.std for x in BASE]
        return f[0], f[1:] + base + self.extra

    def units(self):
        cxx, flags = self.flags()
        objs, cmds = [], []
        for s in self.sources:
            src = s if os.path.isabs(s) else os.path.join(VERIF, "harness", s)
            h = hashlib.sha256()
            h.update(tree_hash().encode())
            h.update(" ".join([cxx] + flags).encode())
            for root, dirs, files in sorted(os.walk(os.path.dirname(src))):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith((".hpp", ".h")) or os.path.join(root, f) == src:
                        h.update(open(os.path.join(root, f), "rb").read())
            for d in ["common"] + self.deps:
                d = os.path.join(VERIF, "harness", d)
                for f in sorted(os.listdir(d)):
                    h.update(open(os.path.join(d, f), "rb").read())
            obj = os.path.join(BUILD, "o_" + os.path.basename(src).replace(".cpp", "") + "_" + h.hexdigest()[:24] + ".o")
            objs.append(obj)
            cmds.append(([cxx] + flags + ["-c", src], obj, 600))
        return objs, cmds


def generated(name, units, support, flavour="gcc-asan0", extra=(), **kw):
    """A program made of generated units {file name: source}, compiled against harness/<support>."""
    d = os.path.join(BUILD, "gen_" + hashlib.sha256(json.dumps(units, sort_keys=True).encode()).hexdigest()[:16])
    os.makedirs(d, exist_ok=True)
    for f, text in units.items():
        p = os.path.join(d, f)
        if not os.path.exists(p):
            with open(p + ".tmp%d" % os.getpid(), "w") as fh:
                fh.write(text)
            os.replace(p + ".tmp%d" % os.getpid(), p)
    return Program(name, [os.path.join(d, f) for f in units] + [support + "/main.cpp"], flavour, extra=["-I" + os.path.join(VERIF, "harness")] + list(extra), deps=[support], **kw)


def build(programs):
    """Compiles all translation units of all programs in parallel, then links."""
    os.makedirs(BUILD, exist_ok=True)
    _prune()
    units, per = {}, []
    for p in programs:
        objs, cmds = p.units()
        per.append(objs)
        for c in cmds:
            units[c[1]] = c
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(_compile_one, units.values()) if e]
    if errs:
        raise CompileError("harness does not compile against this tree:\n" + "\n".join(errs[:3]))

    def link(pair):
        p, objs = pair
        cxx, flags = p.flags()
        key = hashlib.sha256((" ".join(objs + p.libs + flags)).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, "b_%s_%s" % (p.name, key))
        p.bin = out
        return _compile_one(([cxx] + flags + objs + p.libs, out, 300))

    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(link, zip(programs, per)) if e]
    if errs:
        raise CompileError("harness does not link:\n" + errs[0])


def _prune(limit=3 << 30):
    try:
        fs = [(os.stat(os.path.join(BUILD, f)).st_atime, os.stat(os.path.join(BUILD, f)).st_size, os.path.join(BUILD, f)) for f in os.listdir(BUILD)]
    except FileNotFoundError:
        return
    total = sum(x[1] for x in fs)
    for _, size, p in sorted(fs):
        if total < limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= size


def run_cmd(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.pop("MIMICPP_REPO", None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return "timeout", out.decode(errors="replace"), err.decode(errors="replace")


UAR = {"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].replace("use_after_return=0", "use_after_return=1")}


class Finding:
    def __init__(self, key, text, cmd):
        self.key, self.text, self.cmd = key, text, cmd


def oneline(s):
    return " | ".join(s.splitlines())


def crash_signature(rc, out, err):
    """A stable short name of a crash: sanitizer kind plus the first frames inside the library or the harness."""
    t = err + "\n" + out
    kind = "exit%s" % rc
    for pat in (r"ERROR: AddressSanitizer: ([\w-]+)", r"ERROR: (LeakSanitizer): ", r"runtime error: ([^\n]{0,60})", r"WARNING: ThreadSanitizer: ([\w \-]+?)[\(\n]", r"(Assertion `?[^\n]{0,80})", r"(terminate called[^\n]*)", r"(TOKEN CORRUPT)"):
        m = re.search(pat, t)
        if m:
            kind = re.sub(r"0x[0-9a-f]+", "ADDR", m.group(1)).strip()
            m = re.search(r"^SUMMARY: ThreadSanitizer: [^\n]*/([\w.+-]+):\d+[^\n]*$", t, re.M)
            if m:
                kind += " " + m.group(1)
            break
    return kind


class Context:
    """Collects results of one check run."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.stats, self.samples, self.findings, self.foreign = {}, [], [], []
        self.runs = []
        self.t0 = time.time()
        self.rules, self.assumptions = [], []
        self.tmp = tempfile.mkdtemp(prefix="vchk_")
        self.env = {}
        self.hung = False
        self.timeout = 130 if tier == "quick" else 4000

    def add_stats(self, prefix, st):
        d = self.stats.setdefault(prefix, {})
        for k, v in st.items():
            d[k] = d.get(k, 0) + v

    def shard(self, prog, profile, first, count, timeout, env, pre=()):
        """Runs cases [first, first+count); restarts behind a case whose failure belongs to other properties only."""
        findings, stats, samples, foreign = [], [], [], []
        restarts = 0
        cur, left = first, count
        while left > 0 and not self.hung:
            prog_file = os.path.join(self.tmp, "p_%s_%s_%d" % (prog.name, profile, first))
            cmd = list(pre) + [prog.bin, profile, str(self.seed), str(cur), str(left), prog_file]
            env = dict(self.env, **(env or {}))
            rc, out, err = run_cmd(cmd, timeout, env)
            case = cur
            try:
                case = int.from_bytes(open(prog_file, "rb").read(8), "little") - 1
            except OSError:
                pass
            if rc == "timeout" and not self.hung:
                # the machine may be slow: the case is run alone, and if it ends, all of them once more
                rc = run_cmd(list(pre) + [prog.bin, profile, str(self.seed), str(case), "1", prog_file], timeout, env)[0]
                if rc != "timeout":
                    rc, out, err = run_cmd(cmd, timeout * 3, env)
            samples += [l[7:] for l in out.splitlines() if l.startswith("SAMPLE ")][:3]
            m = re.search(r"^STATS (\{.*\})$", out, re.M)
            if rc == 0 and m:
                stats.append(json.loads(m.group(1)))
                break
            one = [prog.bin, profile, str(self.seed), str(case), "1"]
            detail = "command (single case): %s\nbuilt from: %s %s\nexit: %s\n---- stdout\n%s\n---- stderr\n%s\n" % (" ".join(one), prog.flavour, " ".join(prog.sources), rc, out[-12000:], err[-12000:])
            if rc == 77:
                fm = re.search(r"^FAIL tags=(\S+) key=(\S+)", out, re.M)
                tags, key = (fm.group(1).split(","), fm.group(2)) if fm else ([self.prop], "-")
                msg = re.search(r"^MSG (.*)$", out, re.M)
                if key == "-":
                    key = "%s/%s: %s" % (prog.name, profile, re.sub(r"\d+", "N", msg.group(1) if msg else "")[:100])
                if self.prop in tags or "all" in tags:
                    findings.append(Finding(key, (msg.group(1)[:400] if msg else "monitor reported") , detail))
                    break
                foreign.append((tags, key))
                if m:
                    stats.append(json.loads(m.group(1)))
                restarts += 1
                if restarts > 60:
                    break
                left = first + count - (case + 1)
                cur = case + 1
                continue
            if rc == "timeout":
                self.hung = True  # further shards would only spend the time
                findings.append(Finding("%s/%s: hang" % (prog.name, profile), "run does not terminate (tried twice, case %d)" % case, detail))
                break
            if rc == 2 or rc == 0 or rc == -9:
                raise HarnessError("harness %s %s ended with %s without result:\n%s\n%s" % (prog.name, profile, rc, out[-2000:], err[-2000:]))
            findings.append(Finding("%s/%s: %s" % (prog.name, profile, crash_signature(rc, out, err)), "crash: " + crash_signature(rc, out, err), detail))
            break
        return findings, stats, samples, foreign

    def outcomes(self, prog, profile, first, count, env=None):
        """What each case did: its digest, the monitor's report or the kind of crash. -> {case: outcome}"""
        res, cur, left = {}, first, count
        env = dict(self.env, HARNESS_DIGESTS="1", **(env or {}))
        while left > 0:
            prog_file = os.path.join(self.tmp, "p_%s_%s_%s_%d" % (os.path.basename(prog.bin), prog.flavour, profile, first))
            rc, out, err = run_cmd([prog.bin, profile, str(self.seed), str(cur), str(left), prog_file], self.timeout, env)
            res.update({int(a): b for a, b in re.findall(r"^DIGEST (\d+) (\S+)$", out, re.M)})
            m = re.search(r"^STATS (\{.*\})$", out, re.M)
            if m:
                self.add_stats("%s/%s %s" % (prog.name, profile, getattr(prog, "config", prog.flavour)), json.loads(m.group(1)))
            if rc == 0 and m:
                return res
            if rc == 2:
                raise HarnessError("harness %s %s ended with 2:\n%s\n%s" % (prog.name, profile, out[-2000:], err[-2000:]))
            case = int.from_bytes(open(prog_file, "rb").read(8), "little") - 1
            msg = re.search(r"^MSG (.*)$", out, re.M)
            res[case] = "hang" if rc == "timeout" else "reported: " + msg.group(1)[:200] if msg else "crash: exit %s" % rc
            if rc == "timeout" or sum(1 for x in res.values() if ":" in x) > 10:
                return res
            left = first + count - (case + 1)
            cur = case + 1
        return res

    def compare(self, groups):
        """groups: list of (profile, count, shards, [programs]); every program's outcomes must equal those of the first."""
        jobs = []
        for profile, total, shards, progs in groups:
            per = max(1, total // shards)
            for i in range(min(shards, total)):
                cnt = per if i < shards - 1 else total - per * (shards - 1)
                jobs += [(profile, i * per, cnt, p, progs) for p in progs]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda j: self.outcomes(j[3], j[0], j[1], j[2], getattr(j[3], "env", None)), jobs))
        by, equal, seen = {(j[0], j[1], j[3]): r for j, r in zip(jobs, res)}, 0, {}
        for profile, first, cnt, p, progs in jobs:
            if p is progs[0]:
                continue
            a, b = by[profile, first, progs[0]], by[profile, first, p]
            for case in range(first, first + cnt):
                if case not in a or case not in b:
                    continue  # behind too many failures
                if a[case] == b[case]:
                    equal += 1
                    if ":" not in a[case]:
                        seen.setdefault((progs[0].name, profile), set()).add(a[case])
                    continue
                lines = []
                for q in (progs[0], p):
                    rc, out, err = run_cmd([q.bin, profile, str(self.seed), str(case), "1"], self.timeout, dict(self.env, HARNESS_TRACE="1", **(getattr(q, "env", None) or {})))
                    lines.append(out.splitlines() + ["exit %s" % rc] + err.splitlines())
                k = next((i for i, (x, y) in enumerate(zip(*lines)) if x != y), 0)
                diff = "%s: %s\n%s: %s" % (progs[0].config, lines[0][k][:600] if k < len(lines[0]) else "", p.config, lines[1][k][:600] if k < len(lines[1]) else "")
                self.findings.append(Finding("%s/%s: %s differs" % (p.name, profile, p.config), "case %d behaves differently: " % case + oneline(diff),
                                             "case %d of %s/%s, seed %d\n%s\n\n---- %s\n%s\n\n---- %s\n%s\n" % (case, p.name, profile, self.seed, diff, progs[0].config, "\n".join(lines[0])[-6000:], p.config, "\n".join(lines[1])[-6000:])))
                break
        return equal, sum(len(v) for v in seen.values())

    def memcheck(self, specs):
        """specs: (prog, profile, count): the cases under valgrind's memcheck, which knows uninitialised memory."""
        def one(spec):
            prog, profile, count = spec
            log = os.path.join(self.tmp, "vg_%s_%s" % (prog.name, profile))
            rc, out, err = run_cmd(["valgrind", "-q", "--error-exitcode=88", "--exit-on-first-error=yes", "--leak-check=no", "--log-file=" + log, prog.bin, profile, str(self.seed + 77), "0", str(count)], self.timeout * 2, {"HARNESS_NOFORK": "1"})
            return rc, out, open(log).read() if os.path.exists(log) else err
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for (prog, profile, count), (rc, out, log) in zip(specs, ex.map(one, specs)):
                m = re.search(r"^STATS (\{.*\})$", out, re.M)
                if m:
                    self.add_stats("%s/%s memcheck" % (prog.name, profile), json.loads(m.group(1)))
                if rc == 88:
                    kind = re.search(r"^==\d+== (\S.*)$", log, re.M)
                    kind = re.sub(r"0x[0-9A-Fa-f]+", "ADDR", kind.group(1)) if kind else "?"
                    self.findings.append(Finding("%s/%s: memcheck: %s" % (prog.name, profile, kind), "memcheck: " + kind, log[-8000:] + "\n" + out[-3000:]))
                elif rc != 0 or not m:
                    self.foreign.append((["?"], "memcheck run of %s/%s ended with %s" % (prog.name, profile, rc)))

    def run_many(self, specs, env=None):
        """specs: list of (prog, profile, total, shards); all shards of all specs share the pool."""
        jobs = []
        for prog, profile, total, shards in specs:
            shards = max(1, min(shards, total))
            per = max(1, total // shards)
            for i in range(shards):
                n = per if i < shards - 1 else total - per * (shards - 1)
                if n > 0:
                    jobs.append((prog, profile, i * per, n))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda j: self.shard(j[0], j[1], j[2], j[3], self.timeout, env), jobs))
        for j, (f, st, sm, fo) in zip(jobs, res):
            self.findings += f
            self.foreign += fo
            for s in st:
                self.add_stats("%s/%s" % (j[0].name, j[1]), s)
            if len(self.samples) < 8:
                self.samples += sm[:1]


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def finish(ctx, rule, assumptions, extra=None, evaluations=None, distinct=None):
    """Writes the evidence file, prints the verdict and returns the exit code."""
    known = [k for k in known_findings() if k["property"] == ctx.prop and k["status"] == "known"]
    violations, seen_known = [], []
    for f in ctx.findings:
        k = next((k for k in known if re.fullmatch(k["key"], f.key)), None)
        (seen_known if k else violations).append((f, k))
    ev = evaluations if evaluations is not None else sum(s.get("cases", 0) for s in ctx.stats.values())
    di = distinct if distinct is not None else sum(s.get("distinct", 0) for s in ctx.stats.values())
    cov = {"evaluations": ev, "distinct_nontrivial": di, "rule": rule, "samples": ctx.samples[:8] or ["(none recorded)"], "observed": ctx.stats}
    if ctx.foreign:
        cov["aborted_by_other_properties"] = sorted({",".join(t) + ": " + k for t, k in ctx.foreign})[:20]
    if seen_known:
        cov["known_findings_reproduced"] = sorted({k["key"] for _, k in seen_known})
    if extra:
        cov.update(extra)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, ctx.prop + ".json"), "w") as fh:
        json.dump({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration", "coverage": cov,
                   "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(violations)}, fh, indent=1)
    shutil.rmtree(ctx.tmp, ignore_errors=True)
    for k in {k["key"]: k for _, k in seen_known}.values():
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    if violations:
        shown = set()
        for i, (f, _) in enumerate(violations):
            if f.key in shown:
                continue
            shown.add(f.key)
            path = os.path.join(EVID, "replay_%s_%d.txt" % (ctx.prop, len(shown)))
            with open(path, "w") as fh:
                fh.write("property %s\nkey %s\n%s\n\n%s" % (ctx.prop, f.key, f.text, f.cmd))
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
            print("  " + f.key + " -- " + f.text[:300])
        return 1
    if ev == 0 or di == 0:
        print("error: the workload observed nothing (%s evaluations, %s distinct)" % (ev, di))
        return 2
    print("held: property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (ctx.prop, ev, di, time.time() - ctx.t0))
    return 0
